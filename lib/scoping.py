"""Names and scopes: which definitions each part of a form can see, form by form, and what the scopes do with names.

The context is the list of what was bound on the way to it. A form is given with abstract parts; each part that is resolved is
noted with the list it is resolved in, and each name that is looked up with the list it is looked up in."""
import itertools
from typerules import *
from typerules import Case

RS = "llrl::module::sema::resolver::"
AT = "llrl::ast::types::"
KI = "llrl::ast::kind::"
CONTEXT = ("adt", RS + "ContextImpl", (("adt", "llrl::module::scope::LocalScope", ()),))
CON = "llrl::ast::construct::Construct"
USE = "llrl::ast::Use"
VALUES = ("Function", "CFunction", "BuiltinOp", "ClassMethod", "Parameter", "LocalVar", "LocalFun", "PatternVar")
VALUE_CONS = ("DataValueCon", "BuiltinValueCon")
TYPE_CONS = ("DataTypeCon", "BuiltinTypeCon")
OTHERS = ("Macro", "ClassCon", "InstanceCon", "InstanceMethod", "TypeParameter")
OK = ("adt", "std::result::Result", 0, "Ok", (("tup", ()),))


class Sc(Case):
    def __init__(self, mir):
        super().__init__(mir)
        self.names = {}     # what a name is: number of the use -> (kind, number)
        self.ctx = self.a.box(self.context(()))

    def context(self, chain):
        return ("app", "context", tuple(("s", x) for x in chain), CONTEXT)

    def chain(self, e, st, v):
        v = e.res(st, v)
        n = 0
        while v[0] == "ref" and n < 5:
            v, n = e.res(st, e.through(st, v)), n + 1
        if v[0] != "app" or v[1] != "context":
            raise Bad("a context that is not known: %s" % str(v)[:100])
        return tuple(x[1] for x in v[2])

    def con(self, e, st, v):
        v = e.res(st, e.through(st, v))
        if v[0] == "adt" and v[1] == CON:
            n = idnum(v[4][0])
            return "%s %d" % (v[3], n[1])
        raise Bad("a construct that is not known: %s" % str(v)[:100])

    def at(self, v):
        r = fields(self.mir, v)["rep"][4][0]
        return self.e.load(self.last, r[1], r[2])

    # -- parts
    def unresolved(self, n):
        return self.a.enum(USE, "Unresolved", self.a.nid(n))

    def kind(self, name):
        return ("sym", name, ("adt", KI + "Kind", ()))

    def tp(self, n, ann=None):
        """a type parameter, with the kind it is given"""
        return self.a.struct(AT + "TypeParameter", id=self.a.nid(n), ann=NONE if ann is None else some(self.ann(self.kind(ann))))

    def cs(self, n, *tys):
        """a constraint of a class that is looked up by use n"""
        a = self.a
        self.names.setdefault(n, ("ClassCon", 800 + n))
        return a.struct(AT + "Constraint", id=a.nid(n + 50), rep=a.enum(AT + "ConstraintRep", "Class", self.unresolved(n), ("arr", tuple(tys))))

    def scheme_(self, base=200):
        """a scheme of two type parameters, two constraints; (value, names bound, what is resolved in it)"""
        v = self.a.struct(AT + "Scheme", ty_params=("arr", (self.tp(base, "K%d" % base), self.tp(base + 1))), s_params=("arr", (self.cs(base + 2, self.asty("A%d" % base)), self.cs(base + 3, self.asty("B%d" % base)))), body=self.asty("T%d" % base))
        ps = ("TypeParameter %d" % base, "TypeParameter %d" % (base + 1))
        return v, ps, [("K%d" % base, ())] + [(x % base, ps) for x in ("A%d", "B%d", "T%d")] + [("name %d" % (base + i), ps) for i in (2, 3)]

    def hook(self, e, st, c):
        d = strip_generics(c.d)
        if d == RS + "Resolve::resolve":
            v = e.res(st, e.through(st, c.args[1]))
            key = None
            if v[0] == "sym":
                key = v[1]
            elif v[0] == "adt" and v[1] in (X + "Expr", PA + "Pattern"):
                n = idnum(fields(self.mir, v)["id"])
                k = ("e" if v[1] == X + "Expr" else "p", n[1])
                if k in self.children:
                    key = self.children[k]
            if key is not None:
                s = st.fork()
                s.emit("visit", key, self.chain(e, st, c.args[0]))
                return [(s, OK)]
            return None
        if d == RS + "Bind::traverse_defs":
            v = e.res(st, e.through(st, c.args[0]))
            n = 0
            while v[0] == "ref" and n < 5:
                v, n = e.res(st, e.through(st, v)), n + 1
            if v[0] == "adt" and v[1] == PA + "Pattern":
                i = idnum(fields(self.mir, v)["id"])
                if ("p", i[1]) in self.children:
                    s = st.fork()
                    s.emit("def", "names of p%d" % i[1])
                    return [(s, OK)]
            return None
        if d == RS + "Context::on":
            old = self.chain(e, st, c.args[0])
            have = sum(x[0] == "def" for x in st.events)
            out = []
            f = e.new_cell(st, ("sym", "collector", ("?",)))
            for s, r in e.call_path(st, RS + "Bind::traverse_defs", (c.targs[1], ("?",)), [c.args[1], f], ("?",), c.depth + 1, tr=RS + "Bind", m="traverse_defs"):
                defs = tuple(x[1] for x in s.events if x[0] == "def")[have:]
                r = e.res(s, r)
                if r[0] == "adt" and r[3] == "Err":
                    raise Bad("the traversal of definitions fails")
                out.append((s, ("adt", "std::result::Result", 0, "Ok", (self.context(old + defs),))))
            return out
        if c.path.split("::")[-1] in ("call_mut", "call", "call_once") and c.args:
            v = e.res(st, c.args[0])
            n = 0
            while v[0] == "ref" and n < 5:
                v, n = e.res(st, e.through(st, v)), n + 1
            if v[0] == "sym" and v[1] == "collector":
                x = e.res(st, c.args[1])
                if x[0] == "tup":
                    x = x[1][0]
                s = st.fork()
                s.emit("def", self.con(e, st, x))
                return [(s, OK)]
        if d == RS + "Context::get":
            n = idnum(e.res(st, c.args[1]))[1]
            kind = e.res(st, c.args[2])
            s = st.fork()
            s.emit("visit", "name %d" % n, self.chain(e, st, c.args[0]))
            w = self.names.get(n)
            if w is None:
                return [(s, ("adt", "std::result::Result", 1, "Err", (("sym", "not found", ERR),)))]
            sym = e.new_cell(s, self.a.struct("llrl::module::meaning::Symbol", loc=("sym", "place", ("?",)), name=("s", "name%d" % n)))
            return [(s, ("adt", "std::result::Result", 0, "Ok", (("tup", (self.construct(*w), sym)),)))]
        if d.endswith("::try_into") and "TryInto" in d and len(c.targs) == 2:
            return e.call_path(st, "std::convert::TryFrom::try_from", (c.targs[1], c.targs[0]), c.args, c.dty, c.depth + 1, tr="std::convert::TryFrom", m="try_from")
        if d.startswith("llrl::module::error::Error::"):
            s = st.fork()
            s.emit("error", d.split("::")[-1])
            return [(s, ("sym", "error " + d.split("::")[-1], ("adt", ERRORS, ())))]
        return None

    def run(self):
        p, args, targs = self.root
        return self.e.call_fn(self.st, p, args, targs)


def finish(c, name, outs, rule):
    bad = []
    e = c.e
    for x in e.panics:
        bad.append("%s: can panic: %s" % (name, str(x[1:])[:200]))
    if e.cuts:
        raise Bad("not analysed to the end: %s" % str(e.cuts[0])[:200])
    lost(e)
    if not outs and not bad:
        raise Bad("no way through")
    for st, v in outs:
        rule(st, e.res(st, v), lambda t: bad.append("%s: %s" % (name, t)))
    return bad, len(outs), set(e.analysed)


def run_case(name, build):
    c, rule = build()
    return finish(c, name, c.run(), rule)


def failed(v):
    if v[0] != "adt" or v[3] not in ("Ok", "Err"):
        raise Bad("a result that is not known: %s" % str(v)[:100])
    return v[3] == "Err"


def table(mir):
    g = []

    def form(name, ty, make, check=None):
        """make(c) -> (value, [(part, chain)])"""
        def build():
            c = Sc(mir)
            v, want = make(c)
            cell = v if v[0] == "ref" else c.a.box(v)
            c.root = ("<%s as %sResolve>::resolve" % (ty, RS), [c.ctx, cell], (CONTEXT,))

            def rule(st, r, say):
                if failed(r):
                    say("refused")
                    return
                got = sorted((x[1], tuple(x[2])) for x in st.events if x[0] == "visit")
                exp = sorted((k, tuple(ch)) for k, ch in want)
                if got != exp:
                    for k, ch in exp:
                        if (k, ch) not in got:
                            say("%s is not resolved where %s can be seen" % (k, ", ".join(ch) or "nothing more"))
                    for k, ch in got:
                        if (k, ch) not in exp:
                            say("%s is resolved where %s can be seen" % (k, ", ".join(ch) or "nothing more"))
                    if len(got) != len(exp):
                        say("a part is resolved more than once")
                if check:
                    check(c, st, c.e.res(st, c.e.load(st, cell[1], cell[2])), say)
            return c, rule
        g.append((name, build))

    E, P = X + "Expr", PA + "Pattern"
    S = lambda c, n, **kw: c.a.struct(X + n, **kw)
    ch = lambda *xs: tuple(xs)

    # expressions
    def app(c, n):
        return c.node(1, "App", c.a.box(S(c, "ExprApply", callee=c.expr(2), args=("arr", tuple(c.expr(10 + i) for i in range(n)))))), [("e2", ())] + [("e%d" % (10 + i), ()) for i in range(n)]
    for n in range(4):
        form("application of %d" % n, E, lambda c, n=n: app(c, n))
    form("annotated expression", E, lambda c: (c.node(1, "Annotate", c.a.box(S(c, "ExprAnnotate", body=c.expr(2), ann=c.ann(c.asty("T"))))), [("e2", ()), ("T", ())]))
    for n in range(3):
        form("sequence of %d" % n, E, lambda c, n=n: (c.node(1, "Seq", c.a.box(S(c, "ExprSeq", stmts=("arr", tuple(c.expr(10 + i) for i in range(n))), ret=c.expr(2)))), [("e2", ())] + [("e%d" % (10 + i), ()) for i in range(n)]))
        form("return of %d" % n, E, lambda c, n=n: (c.node(1, "Return", c.a.box(NONE if n == 0 else some(c.expr(2)))), [("e2", ())] if n else [])) if n < 2 else None
    form("if", E, lambda c: (c.node(1, "If", c.a.box(S(c, "ExprIf", cond=c.expr(2), then=c.expr(3), else_=c.expr(4)))), [("e%d" % i, ()) for i in (2, 3, 4)]))
    form("while", E, lambda c: (c.node(1, "While", c.a.box(S(c, "ExprWhile", cond=c.expr(2), body=c.expr(3)))), [("e2", ()), ("e3", ())]))
    for n in range(4):
        def match(c, n=n):
            cl = tuple(("tup", (c.pat(20 + i), c.expr(30 + i))) for i in range(n))
            return c.node(1, "Match", c.a.box(S(c, "ExprMatch", target=c.expr(2), clauses=("arr", cl)))), [("e2", ())] + [("p%d" % (20 + i), ()) for i in range(n)] + [("e%d" % (30 + i), ("names of p%d" % (20 + i),)) for i in range(n)]
        form("match of %d" % n, E, match)
    for shape in [""] + ["".join(x) for k in (1, 2, 3) for x in itertools.product("vf", repeat=k)] + ["s", "a", "sv", "vs", "fs", "asf", "c", "cf"]:
        def let(c, shape=shape):
            defs, want, ids, funs = [], [], [], []
            for i, k in enumerate(shape):
                (ids if k in "va" else ids).append(("LocalVar %d" if k in "va" else "LocalFun %d") % (40 + i))
                if k in "fsc":
                    funs.append("LocalFun %d" % (40 + i))
            funs = tuple(funs)
            for i, k in enumerate(shape):
                if k in "va":
                    ann = NONE if k == "v" else some(c.ann(c.asty("T%d" % i)))
                    defs.append(("adt", "either::Either", 0, "Left", (S(c, "LocalVar", id=c.a.nid(40 + i), ann=ann, init=c.expr(60 + i)),)))
                    want += [("e%d" % (60 + i), funs)] + ([("T%d" % i, funs)] if k == "a" else [])
                else:
                    ann, bound = NONE, ()
                    if k == "s":
                        v, bound, w = c.scheme_(200 + 10 * i)
                        ann = some(c.ann(v))
                        want += [(p, funs + tuple(q)) for p, q in w]
                    ns = (300 + 10 * i, 301 + 10 * i) if k != "c" else ()
                    ps = tuple("Parameter %d" % n for n in ns)
                    defs.append(("adt", "either::Either", 1, "Right", (S(c, "LocalFun", id=c.a.nid(40 + i), params=c.params(*ns), ann=ann, body=c.expr(60 + i)),)))
                    want.append(("e%d" % (60 + i), funs + tuple(bound) + ps))
            want.append(("e2", tuple(ids)))
            return c.node(1, "Let", c.a.box(S(c, "ExprLet", defs=("arr", tuple(defs)), body=c.expr(2)))), want
        form("let of %s" % (" ".join({"v": "variable", "a": "variable with a type", "f": "function", "s": "function with a signature", "c": "function of nothing"}[k] for k in shape) or "nothing"), E, let)
    form("constant", E, lambda c: (c.node(1, "Const", c.a.enum("llrl::ast::consts::Const", "Char", I(65, "char"))), []))
    form("constructor that is known", E, lambda c: (c.node(1, "Con", c.a.enum(X + "ValueCon", "Data", c.a.nid(60))), []))
    form("name that is known", E, lambda c: (c.node(1, "Use", c.use(c.value("Function", 50))), []))
    form("captured name that is known", E, lambda c: (c.node(1, "Capture", c.use(c.construct("Function", 50))), []))

    # what a name stands for
    def is_use(c, v, kind, n):
        x = fields(c.mir, v)["rep"]
        if kind in VALUE_CONS:
            return x[3] == "Con" and x[4][0][3] + "ValueCon" == kind and idnum(x[4][0][4][0]) == (1, n)
        return x[3] == "Use" and x[4][0][3] == "Resolved" and x[4][0][4][0][3] == kind and idnum(x[4][0][4][0][4][0]) == (1, n)

    def names(what, ty, make, good, is_):
        """each kind of construct that a name may be found to be"""
        for kind in VALUES + VALUE_CONS + TYPE_CONS + OTHERS + (None,):
            def build(kind=kind):
                c = Sc(mir)
                if kind:
                    c.names[5] = (kind, 50)
                v = make(c)
                cell = c.a.box(v)
                c.root = ("<%s as %sResolve>::resolve" % (ty, RS), [c.ctx, cell], (CONTEXT,))

                def rule(st, r, say):
                    if [tuple(x[1:]) for x in st.events if x[0] == "visit" and x[1].startswith("name")] != [("name 5", ())]:
                        say("the name is not looked up once where it stands")
                    if failed(r) != (kind not in good):
                        return say("accepted" if kind not in good else "refused")
                    c.last = st
                    if kind in good and not is_(c, c.e.res(st, c.e.load(st, cell[1], cell[2])), kind, 50):
                        say("does not stand for what was found")
                return c, rule
            g.append(("%s that is %s" % (what, kind or "not found"), build))
    names("name in an expression", E, lambda c: c.node(1, "Use", c.unresolved(5)), VALUES + VALUE_CONS, is_use)

    def is_capture(c, v, kind, n):
        x = fields(c.mir, v)["rep"][4][0]
        return x[3] == "Resolved" and x[4][0][3] == kind and idnum(x[4][0][4][0]) == (1, n)
    names("captured name", E, lambda c: c.node(1, "Capture", c.unresolved(5)), VALUES + VALUE_CONS + TYPE_CONS + OTHERS, is_capture)

    def is_decon(c, v, kind, n):
        x = fields(c.mir, c.at(v))["use_"]
        return x[3] == "Resolved" and x[4][0][3] + "ValueCon" == kind and idnum(x[4][0][4][0]) == (1, n)

    def decon(c, use, n):
        fs = NONE if n is None else some(("arr", tuple(c.pat(20 + k) for k in range(n))))
        return c.pnode(1, "Decon", c.a.box(c.a.struct(PA + "PatternDecon", use_=use, fields=fs)))
    names("constructor in a pattern", P, lambda c: decon(c, c.unresolved(5), None), VALUE_CONS, is_decon)

    def is_type(c, v, kind, n):
        if kind == "TypeParameter":
            return v[3] == "Gen" and idnum(v[4][0]) == (1, n)
        return v[3] == "Con" and v[4][0][3] + "TypeCon" == kind and idnum(v[4][0][4][0]) == (1, n)
    names("name in a type", AT + "Type", lambda c: c.a.enum(AT + "Type", "Use", c.unresolved(5)), TYPE_CONS + ("TypeParameter",), is_type)

    def is_class(c, v, kind, n):
        x = fields(c.mir, v)["rep"][4][0]
        return x[3] == "Resolved" and idnum(x[4][0]) == (1, n)

    def cons(c):
        a = c.a
        return a.struct(AT + "Constraint", id=a.nid(1), rep=a.enum(AT + "ConstraintRep", "Class", c.unresolved(5), ("arr", (c.asty("A"), c.asty("B")))))
    names("class of a constraint", AT + "Constraint", cons, ("ClassCon",), is_class)
    names("name of a kind", KI + "Kind", lambda c: c.a.enum(KI + "Kind", "Use", c.unresolved(5)), (), None)

    # patterns and types
    V = [x for x in mir.adts if x.endswith("::PatternVar") and x.startswith(PA)][0]

    def pvar(c, n, as_=None):
        return c.a.struct(V, id=c.a.nid(n), as_pat=NONE if as_ is None else some(as_))
    form("variable pattern", P, lambda c: (c.pnode(1, "Var", c.a.box(pvar(c, 2))), []))
    form("variable pattern of a pattern", P, lambda c: (c.pnode(1, "Var", c.a.box(pvar(c, 2, c.pat(20)))), [("p20", ())]))
    form("wildcard", P, lambda c: (c.pnode(1, "Wildcard"), []))
    for n in (None, 0, 1, 3):
        def f(c, n=n):
            c.names[5] = ("DataValueCon", 60)
            return decon(c, c.unresolved(5), n), [("name 5", ())] + [("p%d" % (20 + k), ()) for k in range(n or 0)]
        form("constructor pattern of %s" % n, P, f)
    T = AT + "Type"
    form("applied type", T, lambda c: (c.a.enum(T, "App", c.a.box(c.asty("F")), ("arr", (c.asty("A"), c.asty("B")))), [("F", ()), ("A", ()), ("B", ())]))
    K = KI + "Kind"
    form("kind of functions", K, lambda c: (c.a.enum(K, "Fun", ("arr", (c.kind("A"), c.kind("B"))), c.a.box(c.kind("R"))), [("A", ()), ("B", ()), ("R", ())]))
    form("constraint", AT + "Constraint", lambda c: (c.cs(5, c.asty("A"), c.asty("B")), [("name 5", ()), ("A", ()), ("B", ())]))
    form("scheme", AT + "Scheme", lambda c: (lambda v, ps, w: (v, w))(*c.scheme_()))

    # definitions
    D = lambda n: DE + n

    def body(c, ann, params):
        """the parts of a function: (annotation, parameters, what is resolved, names bound for its body)"""
        want, bound = [], ()
        av = NONE
        if ann:
            v, bound, want = c.scheme_()
            av = some(c.ann(v))
        pv = NONE if params is None else some(c.params(*range(300, 300 + params)))
        return av, pv, want, bound + tuple("Parameter %d" % n for n in range(300, 300 + (params or 0)))

    for ann, ps in itertools.product((False, True), (None, 0, 2)):
        what = "%s%s" % ("constant" if ps is None else "of %d" % ps, " with a signature" if ann else "")

        def fun(c, ann=ann, ps=ps):
            av, pv, want, bound = body(c, ann, ps)
            return c.a.struct(D("Function"), id=c.a.nid(50), transparent=I(0, "bool"), params=pv, ann=av, body=c.expr(2)), want + [("e2", bound)]
        form("function " + what, D("Function"), fun)

        def im(c, ann=ann, ps=ps):
            av, pv, want, bound = body(c, ann, ps)
            return c.a.struct(D("InstanceMethod"), id=c.a.nid(50), transparent=I(0, "bool"), params=pv, ann=av, body=c.expr(2), class_method=c.unresolved(7), instance_con=c.a.nid(70)), want + [("e2", bound)]
        form("instance method " + what, D("InstanceMethod"), im)
        if ann:
            for dflt in (False, True):
                def cm(c, ps=ps, dflt=dflt):
                    av, pv, want, bound = body(c, True, ps)
                    return c.a.struct(D("ClassMethod"), id=c.a.nid(50), transparent=I(0, "bool"), params=pv, ann=av[4][0], default_body=some(c.expr(2)) if dflt else NONE, class_con=c.a.nid(80)), want + ([("e2", bound)] if dflt else [])
                form("class method %s%s" % (what, " by default" if dflt else ""), D("ClassMethod"), cm)
    form("C function", D("CFunction"), lambda c: (c.a.struct(D("CFunction"), id=c.a.nid(50), ann=c.ann(c.asty("T")), c_name=("s", "x")), [("T", ())]))

    def op(c):
        v, _, want = c.scheme_()
        return c.a.struct(D("BuiltinOp"), id=c.a.nid(50), ann=c.ann(v), builtin_name=("s", "x")), want
    form("built-in operation", D("BuiltinOp"), op)
    form("macro", D("Macro"), lambda c: (c.a.struct(D("Macro"), id=c.a.nid(50), param=c.a.struct(D("Parameter"), id=c.a.nid(300)), body=c.expr(2)), [("e2", ("Parameter 300",))]))

    def klass(c, methods=()):
        return c.a.struct(D("ClassCon"), id=c.a.nid(80), constraint_id=c.a.nid(81), ty_params=("arr", (c.tp(600, "K600"), c.tp(601))), superclasses=("arr", (c.cs(602, c.asty("S")),)), methods=("arr", tuple(c.a.nid(m) for m in methods)), is_sealed=I(0, "bool"))
    CP = ("TypeParameter 600", "TypeParameter 601")
    CW = [("K600", ()), ("name 602", CP), ("S", CP)]
    form("class", D("ClassCon"), lambda c: (klass(c), CW))

    def inst(c, methods=()):
        return c.a.struct(D("InstanceCon"), id=c.a.nid(70), ty_params=("arr", (c.tp(700, "K700"), c.tp(701))), s_params=("arr", (c.cs(702, c.asty("Q")),)), target=c.cs(703, c.asty("I"), c.asty("J")), methods=("arr", tuple(c.a.nid(m) for m in methods)))
    IP = ("TypeParameter 700", "TypeParameter 701")
    IW = [("K700", ()), ("name 702", IP), ("Q", IP), ("name 703", IP), ("I", IP), ("J", IP)]
    form("instance", D("InstanceCon"), lambda c: (inst(c), IW))

    # the module
    def vcon(c, kind, n, k=2):
        kw = {} if kind == "Data" else {"builtin_name": ("s", "x")}
        return c.a.struct(D(kind + "ValueCon"), id=c.a.nid(n), fields=NONE if k is None else some(("arr", tuple(c.a.struct(D("ValueConField"), id=c.a.nid(900 + 10 * n + j), ty=c.asty("F%d.%d" % (n, j))) for j in range(k)))), type_con=c.a.nid(55), **kw)
    for kind in ("Data", "Builtin"):
        def f(c, kind=kind):
            a = c.a
            kw = dict(repr=a.enum(DE + "DataRepr", "Default")) if kind == "Data" else dict(builtin_name=("s", "x"))
            tcon = a.struct(D(kind + "TypeCon"), id=a.nid(55), ty_params=("arr", (c.tp(500, "K500"), c.tp(501))), value_cons=("arr", (a.nid(60), a.nid(61), a.nid(62))), **kw)
            kw = dict(repr=a.enum(DE + "DataRepr", "Default")) if kind == "Data" else dict(builtin_name=("s", "x"))
            tcon2 = a.struct(D(kind + "TypeCon"), id=a.nid(56), ty_params=("arr", ()), value_cons=("arr", (a.nid(63),)), **kw)
            k = kind.lower()
            cs = [vcon(c, kind, 60, 2), vcon(c, kind, 61, None), vcon(c, kind, 62, 1), vcon(c, kind, 63, 1)]
            ps = ("TypeParameter 500", "TypeParameter 501")
            return c.root_of(**{k + "_type_cons": [tcon, tcon2], k + "_value_cons": cs}), [("K500", ()), ("F60.0", ps), ("F60.1", ps), ("F62.0", ps), ("F63.0", ())]
        form("module with %s types" % kind.lower(), "llrl::ast::root::Root", f)

    def f(c):
        m = [c.a.struct(D("ClassMethod"), id=c.a.nid(n), transparent=I(0, "bool"), params=some(c.params(300 + n)), ann=c.ann(c.a.struct(AT + "Scheme", ty_params=("arr", ()), s_params=("arr", ()), body=c.asty("M%d" % n))), default_body=some(c.expr(n)), class_con=c.a.nid(80)) for n in (30, 31)]
        return c.root_of(class_cons=[klass(c, (30, 31))], class_methods=m), CW + [(x % n, CP + y) for n in (30, 31) for x, y in (("M%d", ()), ("e%d", ("Parameter %d" % (300 + n),)))]
    form("module with a class", "llrl::ast::root::Root", f)

    def f(c):
        m = [c.a.struct(D("InstanceMethod"), id=c.a.nid(n), transparent=I(0, "bool"), params=some(c.params(300 + n)), ann=NONE, body=c.expr(n), class_method=c.unresolved(7), instance_con=c.a.nid(70)) for n in (30, 31)]
        return c.root_of(instance_cons=[inst(c, (30, 31))], instance_methods=m), IW + [("e%d" % n, IP + ("Parameter %d" % (300 + n),)) for n in (30, 31)]
    form("module with an instance", "llrl::ast::root::Root", f)

    def f(c):
        a = c.a
        fs = [a.struct(D("Function"), id=a.nid(n), transparent=I(0, "bool"), params=some(c.params(300 + n)), ann=NONE, body=c.expr(n)) for n in (30, 31)]
        cf = [a.struct(D("CFunction"), id=a.nid(50), ann=c.ann(c.asty("C")), c_name=("s", "x"))]
        v, _, want = c.scheme_()
        ops = [a.struct(D("BuiltinOp"), id=a.nid(50), ann=c.ann(v), builtin_name=("s", "x"))]
        ms = [a.struct(D("Macro"), id=a.nid(50), param=a.struct(D("Parameter"), id=a.nid(399)), body=c.expr(32))]
        IE = X + "InitExpr"
        ie = [a.enum(IE, "Eval", c.expr(33)), a.enum(IE, "EnsureInitialized", a.struct2("llrl::ast::node_id::ModuleId", I(3, "u32"))), a.enum(IE, "Eval", c.expr(34))]
        return c.root_of(functions=fs, c_functions=cf, builtin_ops=ops, macros=ms, init_expressions=ie), want + [("C", ()), ("e30", ("Parameter 330",)), ("e31", ("Parameter 331",)), ("e32", ("Parameter 399",)), ("e33", ()), ("e34", ())]
    form("module with functions and statements", "llrl::ast::root::Root", f)

    # names that patterns bind
    def binds(name, make, want):
        def build():
            c = Sc(mir)
            v = c.a.box(make(c))
            f = c.a.box(("sym", "collector", ("?",)))
            c.root = ("<%s as %sBind>::traverse_defs" % (P, RS), [v, f], (("?",),))

            def rule(st, r, say):
                got = sorted(x[1] for x in st.events if x[0] == "def")
                if failed(r) or got != sorted("PatternVar %d" % n for n in want):
                    say("binds %s instead of %s" % (got, want))
            return c, rule
        g.append(("names of " + name, build))

    def dn(c, *ps):
        return c.pnode(1, "Decon", c.a.box(c.a.struct(PA + "PatternDecon", use_=c.use(c.a.enum(X + "ValueCon", "Data", c.a.nid(60))), fields=some(("arr", ps)))))
    var = lambda c, n, p=None: c.pnode(n + 100, "Var", c.a.box(pvar(c, n, p)))
    wild = lambda c: c.pnode(90, "Wildcard")
    const = lambda c: c.pnode(91, "Const", c.a.enum("llrl::ast::consts::Const", "Char", I(65, "char")))
    binds("a variable", lambda c: var(c, 2), [2])
    binds("a wildcard", wild, [])
    binds("a constant", const, [])
    binds("a variable of a constant", lambda c: var(c, 2, const(c)), [2])
    binds("a variable of a variable", lambda c: var(c, 2, var(c, 3)), [2, 3])
    binds("a constructor", lambda c: dn(c, var(c, 2), wild(c), var(c, 3)), [2, 3])
    binds("constructors in each other", lambda c: dn(c, dn(c, var(c, 2), var(c, 3, dn(c, var(c, 4)))), const(c), var(c, 5, wild(c)), dn(c, wild(c), dn(c, var(c, 6)))), [2, 3, 4, 5, 6])
    binds("a variable of constructors", lambda c: var(c, 2, dn(c, var(c, 3), dn(c, var(c, 4), var(c, 5)))), [2, 3, 4, 5])
    return g


def _root(self, **kw):
    a = self.a
    f = {x["n"]: ("map", None, ()) for x in self.mir.adts["llrl::ast::root::Root"]["variants"][0]["fields"]}
    f["id"], f["init_expressions"] = a.nid(0), ("arr", ())
    for k, v in kw.items():
        f[k] = ("arr", tuple(v)) if k == "init_expressions" else ("map", None, tuple((fields(self.mir, x)["id"], x) for x in v))
    return a.struct("llrl::ast::root::Root", **f)


Sc.root_of = _root


# -- what the scopes do with names
SCO = "llrl::module::scope::"
LOC = "llrl::module::meaning::LocatedConstruct"
AGAIN = [("", "x", "X", "(", "x", ")"), ("xy", "X", "Y", "(", "(", "y"), ("", "y", "x", "X", "Y", "(")]   # X is x again, as what it was

def scripts():
    """sequences of steps: d NAME defines in the innermost scope, ( enters a scope, ) leaves it; every name is looked up after each step"""
    out = []

    def go(steps, depth, defs, n):
        out.append(tuple(steps))
        if n == 0:
            return
        if depth < 3:
            go(steps + ["("], depth + 1, defs, n - 1)
        if depth:
            go(steps + [")"], depth - 1, defs, n - 1)
        for x in "xy":
            if x == "y" and "x" not in steps:
                continue
            go(steps + [x], depth, defs, n - 1)
    for top in ("", "x", "xy"):
        k = len(out)
        go([], 0, (), 5)
        out[k:] = [(top,) + s for s in out[k:]]
    # only those that end with something that can show a difference, and no step that says the same twice
    return [s for s in out if len(s) == 6 and "(" in s] + AGAIN


class Scope(Case):
    def __init__(self, mir):
        super().__init__(mir)
        self.n = 0

    def hook(self, e, st, c):
        d = strip_generics(c.d)
        if d.startswith("llrl::module::error::Error::"):
            return [(st, ("sym", "error " + d.split("::")[-1], ("adt", ERRORS, ())))]
        if d.endswith("::drain") and ("HashMap" in d or "hash_map" in d):
            cell, p = e.deref(st, c.args[0])
            v = e.load(st, cell, p)
            if v[0] != "map" or v[1] is not None:
                raise Bad("a map that is not known")
            e.store(st, cell, p, ("map", None, ()))
            return [(st, mk_iter(tuple(("tup", (k, x)) for k, x in v[2])))]
        return None

    def located(self):
        """something new to define"""
        self.n += 1
        return self.n, a_located(self, self.n)


def a_located(c, n):
    return c.a.struct(LOC, loc=("sym", "place %d" % n, ("?",)), construct=c.construct("Function", 400 + n))


def scope_case(mir, steps):
    def build():
        c = Scope(mir)
        top = {}
        items = []
        for x in steps[0]:
            n, v = c.located()
            top[x] = n
            items.append((("s", x), v))
        root = c.a.box(c.a.struct(SCO + "TopLevel", map=("map", None, tuple(items))))
        return c, (steps, root, top)
    return build


def run_scope(name, build):
    c, (steps, root, top) = build()
    e, bad = c.e, []
    say = lambda t: bad.append("%s: %s" % (name, t))
    stack = [(SCO + "TopLevel", root, top)]
    states = [c.st]

    def one(outs, what):
        if len(outs) != 1:
            raise Bad("%s has %d outcomes%s" % (what, len(outs), "".join("; " + k for k in list(e.opaque)[:3])))
        return outs[0][0], e.res(outs[0][0], outs[0][1])

    def meth(kind, m, args):
        return e.call_path(st, SCO + "Scope::" + m, (("adt", kind, ()),), args, ("?",), 1, tr=SCO + "Scope", m=m)
    local = SCO + "LocalScope"
    st = c.st
    done = False
    for step in steps[1:]:
        kind, cell, mine = stack[-1]
        if step == "(":
            st, v = one(meth(kind, "enter_scope", [cell]), "entering a scope")
            stack.append((local, e.new_cell(st, v), {}))
        elif step == ")":
            st, v = one(e.call_path(st, "std::ops::Drop::drop", (("adt", local, ()),), [cell], ("?",), 1, tr="std::ops::Drop", m="drop"), "leaving a scope")
            stack.pop()
        else:
            if step in "XY":
                step = step.lower()
                n, twice = mine[step], False
                v = a_located(c, n)
            else:
                n, v = c.located()
                twice = step in mine
            st, r = one(meth(kind, "define", [cell, ("s", step), v]), "defining a name")
            if failed(r) != twice:
                say("%s after %s: a name is %s" % (step, " ".join(steps), "defined twice in one scope" if twice else "not accepted"))
            if twice:
                done = True
            mine[step] = n
        if done:
            break
        kind, cell, mine = stack[-1]
        for x in "xyz":
            st, r = one(meth(kind, "get", [cell, ("s", x)]), "looking a name up")
            want = [m[x] for k, q, m in reversed(stack) if x in m][:1]
            if r[3] == "None":
                got = []
            else:
                f = fields(c.mir, e.res(st, r[4][0]))
                got = [idnum(e.res(st, f["construct"])[4][0])[1] - 400]
                if want and (f["loc"][0] != "sym" or f["loc"][1] != "place %d" % want[0]):
                    say("the place of %s is not that of its definition" % x)
            if got != want:
                say("%s does not stand for its innermost definition after %s" % (x, " ".join(steps)))
    for x in e.panics:
        say("can panic: %s" % str(x[1:])[:200])
    if e.cuts:
        raise Bad("not analysed to the end: %s" % str(e.cuts[0])[:200])
    lost(e)
    return bad, len(steps), set(e.analysed)


def scopes(mir):
    return [("scopes " + " ".join(s), scope_case(mir, s)) for s in scripts()]


# -- the methods of an instance
class Inst(Case):
    """a module with a class of some methods, or another module with it, and an instance"""
    def __init__(self, mir):
        super().__init__(mir)
        self.known = {}     # construct -> name
        self.other = None

    def symbol(self, e, st, name):
        return e.new_cell(st, self.a.struct("llrl::module::meaning::Symbol", loc=("sym", "place of " + name, ("?",)), name=("s", name)))

    def hook(self, e, st, c):
        d = strip_generics(c.d)
        if d == RS + "Resolve::resolve":
            v = e.res(st, e.through(st, c.args[1]))
            if v[0] == "adt" and v[1] == "llrl::ast::root::Root":
                s = st.fork()
                s.emit("resolved")
                return [(s, OK)]
        if d == "llrl::module::meaning::SymbolMap::get":
            v = e.res(st, c.args[1])
            n = idnum(v) if v[1] != CON else idnum(v[4][0])
            if n is None or n not in self.known:
                raise Bad("the symbol of something that is not known: %s" % str(v)[:100])
            return [(st, some(self.symbol(e, st, self.known[n])))]
        if d == "llrl::module::meaning::AvailableInstances::add":
            s = st.fork()
            f = fields(self.mir, e.res(st, e.through(st, c.args[1])))
            s.emit("available", idnum(f["id"])[1])
            return [(s, ("tup", ()))]
        if d.endswith("External::module"):
            if self.other is None or e.res(st, c.args[1])[4][0] != I(2, "u32"):
                raise Bad("another module than that of the class is looked at")
            return [(st, self.other)]
        if d.endswith("str>::find") or d.endswith("str::find"):
            return [(st, NONE)]         # the text of the module is asked for unresolved names, of which there are none
        if d.startswith("llrl::module::error::Error::"):
            s = st.fork()
            s.emit("error", d.split("::")[-1])
            return [(s, ("sym", "error " + d.split("::")[-1], ("adt", ERRORS, ())))]
        if d.endswith("::try_into") and "TryInto" in d and len(c.targs) == 2:
            return e.call_path(st, "std::convert::TryFrom::try_from", (c.targs[1], c.targs[0]), c.args, c.dty, c.depth + 1, tr="std::convert::TryFrom", m="try_from")
        return None

    def id(self, n, module=1):
        return self.a.nid(n, module)

    def module(self, root):
        a = self.a
        kw = {f["n"]: ("sym", "module " + f["n"], ("?",)) for f in self.mir.adts["llrl::module::Module"]["variants"][0]["fields"]}
        kw["ast_root"] = root
        return a.box(a.struct("llrl::module::Module", **kw))


Inst.root_of = _root
Inst.run = Sc.run


def params_of(c, k):
    return NONE if k is None else some(c.params(*range(300, 300 + k)))


def inst_case(mir, methods, given, sealed=False, away=False):
    """methods of the class: (name, arity, by default), of the instance: (name, arity)"""
    def build():
        c = Inst(mir)
        a = c.a
        cm = 2 if away else 1
        cid = lambda n: c.id(n, cm)
        cms = []
        for i, (name, ar, dflt) in enumerate(methods):
            c.known[cm, 30 + i] = name
            cms.append(a.struct(DE + "ClassMethod", id=cid(30 + i), transparent=I(0, "bool"), params=params_of(c, ar), ann=("sym", "scheme", ("?",)), default_body=some(c.expr(90 + i)) if dflt else NONE, class_con=cid(80)))
        k = a.struct(DE + "ClassCon", id=cid(80), constraint_id=cid(81), ty_params=("arr", ()), superclasses=("arr", ()), methods=("arr", tuple(cid(30 + i) for i in range(len(methods)))), is_sealed=I(int(sealed), "bool"))
        ims = []
        for i, (name, ar) in enumerate(given):
            c.known[1, 40 + i] = "method %d" % i
            c.known[1, 60 + i] = name
            ims.append(a.struct(DE + "InstanceMethod", id=a.nid(40 + i), transparent=I(0, "bool"), params=params_of(c, ar), ann=NONE, body=c.expr(70 + i), class_method=a.enum(USE, "Unresolved", a.nid(60 + i)), instance_con=a.nid(20)))
        c.known[1, 20] = "the instance"
        target = a.struct(AT + "Constraint", id=a.nid(21), rep=a.enum(AT + "ConstraintRep", "Class", c.use(cid(80)), ("arr", ())))
        inst = a.struct(DE + "InstanceCon", id=a.nid(20), ty_params=("arr", ()), s_params=("arr", ()), target=target, methods=("arr", tuple(a.nid(40 + i) for i in range(len(given)))))
        parts = dict(class_cons=[k], class_methods=cms)
        if away:
            r = c.root_of(**parts)
            f = fields(mir, r)
            f["id"] = c.id(0, 2)
            c.other = c.module(a.struct("llrl::ast::root::Root", **f))
            parts = {}
        m = c.module(c.root_of(instance_cons=[inst], instance_methods=ims, **parts))
        c.root = (RS + "run", [m, a.box(("sym", "external", ("?",)))], (("adt", "$External", ()),))

        left = {x[0]: x for x in methods}
        want, good = {}, not (sealed and away)
        for i, (name, ar) in enumerate(given):
            if name not in left or left[name][1] != ar:
                good = False
                break
            want[40 + i] = 30 + methods.index(left.pop(name))
        if any(not x[2] for x in left.values()):
            good = False

        def rule(st, r, say):
            if failed(r) == good:
                return say("refused" if good else "accepted")
            if not good:
                return
            ev = [x[0] for x in st.events]
            if ev != ["resolved", "available"]:
                say("the parts of the module are not resolved, or the instance is not made available")
            root = fields(mir, c.e.res(st, c.e.load(st, m[1], m[2])))["ast_root"]
            for k, v in fields(mir, root)["instance_methods"][2]:
                u = c.e.res(st, fields(mir, v)["class_method"])
                i = idnum(k)[1]
                if u[3] != "Resolved" or idnum(u[4][0]) != (cm, want[i]):
                    say("the %s stands for %s" % (c.known[1, i], str(u)[:100]))
        return c, rule
    return build


def instances(mir):
    g = []
    f0, f1, f2, fc = ("f", 0), ("f", 1), ("f", 2), ("f", None)
    one = ("f", 1, False)
    add = lambda name, *a, **k: g.append(("instance: " + name, inst_case(mir, *a, **k)))
    add("no methods", [], [])
    add("the method", [one], [f1])
    add("the method is missing", [one], [])
    add("another name", [one], [("g", 1)])
    add("a method the class does not have", [one], [f1, ("g", 1)])
    add("a method of a class that has none", [], [f1])
    add("the method twice", [one], [f1, f1])
    add("the method by default", [("f", 1, True)], [])
    add("the method in place of the default", [("f", 1, True)], [f1])
    add("another name in place of the default", [("f", 1, True)], [("g", 1)])
    for want, have in itertools.product((None, 0, 1, 2), repeat=2):
        add("%s for %s parameters" % (have, want), [("f", want, False)], [("f", have)])
        add("%s for %s parameters by default" % (have, want), [("f", want, True)], [("f", have)])
    two = [("f", 1, False), ("g", 2, False), ("h", 1, True)]
    add("all methods", two, [f1, ("g", 2), ("h", 1)])
    add("all methods in another order", two, [("h", 1), ("g", 2), f1])
    add("those that are required", two, [("g", 2), f1])
    add("one of those that are required", two, [("h", 1), f1])
    add("the other of those that are required", two, [("h", 1), ("g", 2)])
    add("methods with the numbers of parameters of each other", two, [("f", 2), ("g", 1)])
    add("the last has another number of parameters", two, [f1, ("g", 2), ("h", 0)])
    for sealed, away in itertools.product((False, True), repeat=2):
        add("%s class of %s module" % ("a sealed" if sealed else "a", "another" if away else "the same"), two, [("g", 2), f1], sealed, away)
    add("a class of another module, a method missing", two, [f1], False, True)
    add("a class of another module, another method", two, [f1, ("g", 2), ("i", 1)], False, True)
    add("a sealed class of another module without methods", [], [], True, True)
    return g


# -- the context: names of definitions and uses, from the symbols
def contexts(mir):
    """what a name is found to be on nested parameters, the names of which are given; "!" stands for a refused definition"""
    g = []
    for tops, levels in (("", ["x"]), ("x", []), ("x", ["x"]), ("xy", ["x"]), ("y", ["x", "y"]), ("xy", ["xy"]), ("x", ["xx"]), ("", ["xyx"]), ("x", ["x", "x"]), ("x", ["xy", "y"]), ("", ["x", "yy"]), ("xy", ["", "x", "yz"])):
        g.append(("context of %s" % " in ".join([x or "nothing" for x in levels[::-1] + [tops]]), (mir, tops, levels)))
    return g


def run_context(name, build):
    mir, tops, levels = build
    c = Inst(mir)
    a, e, bad = c.a, c.e, []
    say = lambda t: bad.append("%s: %s" % (name, t))
    sym = ("ref", 0, ("adt", "llrl::module::meaning::SymbolMap", ()))
    items, want, n = [], {}, 0
    for x in tops:
        n += 1
        want[x] = ("Function", n)
        items.append((("s", x), a.struct(LOC, loc=("sym", "place %d" % n, ("?",)), construct=c.construct("Function", n))))
    root = a.box(a.struct(SCO + "TopLevel", map=("map", None, tuple(items))))
    impl = RS + "ContextImpl"
    ctx = a.box(a.struct(impl, symbol_map=a.box(("sym", "symbols", sym[2])), scope=root))
    ty = ("adt", impl, (("ref", 1, ("adt", SCO + "TopLevel", ())),))
    st = c.st
    n = 100

    def one(outs, what):
        if len(outs) != 1:
            raise Bad("%s has %d outcomes%s" % (what, len(outs), "".join("; " + k for k in list(e.opaque)[:3])))
        return outs[0][0], e.res(outs[0][0], outs[0][1])

    def look():
        s = st
        for i, x in enumerate("xyz"):
            c.known[1, 900 + i] = x
            s, r = one(e.call_path(s, RS + "Context::get", (ty, ("?",)), [ctx, a.nid(900 + i), ("s", "value")], ("?",), 1, tr=RS + "Context", m="get"), "looking a name up")
            if failed(r) != (x not in want):
                say("%s is%s found" % (x, "" if x not in want else " not"))
            elif x in want:
                con, y = e.res(s, r[4][0])[1]
                con = e.res(s, con)
                if (con[3], idnum(con[4][0])) != (want[x][0], (1, want[x][1])):
                    say("%s stands for %s" % (x, str(con)[:100]))
                if fields(mir, e.res(s, e.through(s, y)))["name"] != ("s", x):
                    say("the symbol of another name than %s" % x)
        return s
    st = look()
    for lv in levels:
        ps, mine = [], []
        for x in lv:
            n += 1
            c.known[1, n] = x
            mine.append((x, n))
            ps.append(n)
        bind = e.new_cell(st, ("arr", tuple(a.struct(DE + "Parameter", id=a.nid(p)) for p in ps)))
        vec = ("adt", "std::vec::Vec", (("adt", DE + "Parameter", ()), ("adt", "std::alloc::Global", ())))
        st, r = one(e.call_path(st, RS + "Context::on", (ty, vec), [ctx, bind], ("?",), 1, tr=RS + "Context", m="on"), "entering a scope")
        twice = len(set(lv)) < len(lv)
        if failed(r) != twice:
            say("the names %s are %s" % (lv, "refused" if failed(r) else "accepted"))
        if failed(r) or twice:
            break
        want.update((x, ("Parameter", i)) for x, i in mine)
        ctx = e.new_cell(st, e.res(st, r[4][0]))
        ty = ("adt", impl, (("adt", SCO + "LocalScope", ()),))
        st = look()
    for x in e.panics:
        say("can panic: %s" % str(x[1:])[:200])
    if e.cuts:
        raise Bad("not analysed to the end: %s" % str(e.cuts[0])[:200])
    lost(e)
    return bad, 1 + len(levels), set(e.analysed)
