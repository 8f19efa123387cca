"""Translation of the syntax tree into the intermediate representation, form by form.

A form is given with abstract parts; the parts' own translations are marked and everything the module set is asked for is
answered from a table. What comes out is compared with what the form means."""
import itertools
from typerules import *
from typerules import Case
import irb

LO = "llrl::lowering::"
TR = LO + "translator::"
AT = "llrl::ast::types::"
PARTS = (X + "Expr", PA + "Pattern", AT + "Type", AT + "Satisfaction")
RT = ("adt", LO + "ir::rt::Rt", ())


class Read(irb.Reader):
    def __init__(self, c, st):
        super().__init__(c.e, st)
        self.c = c

    def v(self, x):
        x = self.e.res(self.st, x)
        while x[0] == "ref":
            x = self.e.res(self.st, self.e.load(self.st, x[1], x[2]))
        if x[0] not in ("adt", "tup", "arr", "i", "s", "b", "map", "sym", "app"):
            raise Bad("a value that is not known: %s" % str(x)[:200])
        return x

    def variant(self, x):
        x = self.v(x)
        if x[0] != "adt":
            raise Bad("a value that is not known: %s" % str(x)[:200])
        return x[3], x[4]

    def int(self, x):
        x = self.v(x)
        return x[1]

    def const(self, x):
        n, a = self.variant(x)
        if n == "Integer":
            return ("const", "int", self.ct(a[0]), self.v(a[1])[1], self.int(a[2]))
        if n == "FPNumber":
            return ("const", "fp", self.ct(a[0]), self.v(a[1]))
        if n == "String":
            return ("const", "str", self.v(a[0]))
        if n == "SyntaxSexp":
            return ("const", "sexp", self.ct(a[0]), self.v(a[1]))
        return super().const(x)

    def term(self, x):
        n, a = self.variant(x)
        if n == "ConstructSyntax":
            p = self.tup(a[0])
            return ("syntax", self.v(p[0]), self.term(p[1]))
        return super().term(x)

    def pat(self, x):
        n, a = self.variant(x)
        P, C = self.pat, self.ct
        if n == "Var":
            return ("pvar", self.id(a[0]), C(a[1]), self.opt(a[2], P))
        if n in ("Wildcard", "Null"):
            return ({"Wildcard": "pwild", "Null": "pnull"}[n], C(a[0]))
        if n in ("Deref", "NonNull", "Syntax"):
            return ({"Deref": "pderef", "NonNull": "pnonnull", "Syntax": "psyntax"}[n], P(a[0]))
        if n == "Data":
            return ("pdata", C(a[0]), self.int(a[1]), [P(y) for y in self.seq(a[2])])
        if n == "Const":
            return ("pconst", self.const(a[0]))
        raise Bad("a pattern that does not come from the source: %s" % n)

    def def_(self, x):
        n, a = self.variant(x)
        if n == "Generic":
            return ("generic", [self.id(i) for i in self.seq(a[0])], self.def_(a[1]))
        if n == "Data":
            f = self.fields(a[0])
            return ("data", self.variant(f["repr"])[0], [[self.ct(t) for t in self.seq(q)] for q in self.seq(f["cons"])])
        if n == "AliasTable":
            m = self.v(self.v(a[0])[4][0])
            if m[0] != "map" or m[1] is not None:
                raise Bad("a table that is not known")
            return ("table", sorted((self.id(k), self.ct(t)) for k, t in m[2]))
        return super().def_(x)

    def any(self, x):
        x = self.v(x)
        if x[0] == "arr":
            return [self.any(y) for y in x[1]]
        if x[0] == "tup":
            return tuple(self.any(y) for y in x[1])
        if x[0] == "adt":
            t = x[1].split("::")[-1]
            if t == "Option":
                return None if x[3] == "None" else ("some", self.any(x[4][0]))
            f = {"Rt": self.term, "RtPat": self.pat, "Ct": self.ct, "Def": self.def_, "CtId": self.id, "RtId": self.id}.get(t)
            if f:
                return f(x)
            if t == "Init":
                q = self.fields(x)
                return ("init", self.ct(q["ty"]), self.term(q["expr"]))
        raise Bad("a result of another kind: %s" % str(x)[:100])


def norm(t):
    """terms up to the ways of writing the same"""
    if isinstance(t, list):
        return [norm(x) for x in t]
    if not isinstance(t, tuple):
        return t
    t = tuple(norm(x) for x in t)
    if t[:1] == ("inst",) and not t[2]:
        return t[1]
    if t[:1] == ("seq",):
        if not t[1]:
            return t[2]
        if isinstance(t[2], tuple) and t[2][0] == "seq":
            return ("seq", t[1] + t[2][1], t[2][2])
    if t[:1] == ("let",):
        if not t[1]:
            return t[2]
        if t[2][0] == "let":
            return ("let", t[1] + t[2][1], t[2][2])
    if t[:1] == ("letfun",):
        if not t[1]:
            return t[2]
        return ("letfun", sorted(t[1], key=lambda f: f[0]), t[2])
    if t[:1] == ("generic",) and not t[1]:
        return t[2]
    return t


FRESH = 50000


def rename(t, m):
    """identifiers made on the way are what they are used for: numbered as they come"""
    if isinstance(t, (tuple, list)):
        return type(t)(rename(x, m) for x in t)
    if isinstance(t, int) and not isinstance(t, bool) and t >= FRESH:
        return m.setdefault(t, FRESH + len(m))
    return t


class Tr(Case):
    def __init__(self, mir):
        super().__init__(mir)
        self.ids = {}
        self.table = {}
        self.shape = {}
        self.asked = set()
        self.set_ = ("sym", "module set", ("?",))
        e = self.e
        self.env = self.a.box(self.a.struct(LO + "context::TranslatorContext", context=("sym", "context", ("?",)), module_set=self.set_))
        self.self_ty = ("adt", LO + "context::TranslatorContext", (("adt", "std::collections::HashMap", ()),))
        self.b = irb.Builder(e, self.st)

    # -- names
    def number(self, *k):
        """the identifier in the representation that stands for a construct of the source"""
        if k not in self.ids:
            self.ids[k] = 100 + len(self.ids)
        return self.ids[k]

    def con(self, e, st, v, targs):
        v = e.res(st, e.through(st, v))
        if v[0] != "adt":
            raise Bad("a construct that is not known: %s" % str(v)[:200])
        if v[1].endswith("::Construct"):
            return (v[3],) + idnum(v[4][0])
        if v[1].endswith("NodeId"):
            for t in targs:
                if t[0] == "adt" and t[1].endswith("NodeId"):
                    return (t[2][0][1].split("::")[-1],) + idnum(v)
            raise Bad("a construct of unknown kind")
        if len(v[4]) == 1 and v[4][0][0] == "adt" and v[4][0][1].endswith("NodeId"):
            # an enumeration of constructs: Value, ValueCon, TypeCon
            n = v[1].split("::")[-1]
            k = v[3] + n if n in ("ValueCon", "TypeCon") else v[3]
            return (k,) + idnum(v[4][0])
        raise Bad("a construct that is not known: %s" % str(v)[:200])

    # -- parts
    def ty(self, name):
        return self.asty(name)

    def cty(self, name):
        return ("id", self.number("type", name))

    def part(self, n):
        """what an expression part is translated to"""
        f = self.shape.get(n)
        return f(n) if f else ("var", 9000 + n, ("id", 9000 + n))

    def ppart(self, n):
        return ("pwild", ("id", 9000 + n))

    def sat(self, name):
        return ("sym", name, ("adt", AT + "Satisfaction", ()))

    def csat(self, name):
        return ("id", self.number("satisfaction", name))

    def inst(self, tys=(), ss=()):
        return self.a.struct(AT + "Instantiation", ty_args=("arr", tuple(self.ty(t) for t in tys)), s_args=("arr", tuple(self.sat(s) for s in ss)))

    def know(self, what, key, v):
        self.table[(what,) + key] = v

    def fun_ty(self, *tys):
        n = len(tys) - 1
        T = AT + "Type"
        return self.a.enum(T, "App", self.a.box(self.a.enum(T, "Con", self.a.enum(AT + "TypeCon", "Builtin", self.a.nid(n, 0)))), ("arr", tuple(self.ty(t) for t in tys)))

    def plain_ty(self):
        return self.a.enum(AT + "Type", "Con", self.a.enum(AT + "TypeCon", "Data", self.a.nid(91)))

    def symbol(self, name):
        S = "llrl::module::meaning::Symbol"
        f = {x["n"]: ("sym", "symbol %s" % x["n"], ("?",)) for x in self.mir.adts[S]["variants"][0]["fields"]}
        f["loc"] = self.loc(name)
        return self.a.struct(S, **f)

    def loc(self, name):
        return ("sym", "location of " + name, ("adt", "llrl::source_loc::SourceLocation", ()))

    # -- what is asked
    def hook(self, e, st, c):
        d = strip_generics(c.d)
        p = c.path
        if d == TR + "Translate::translate":
            v = e.res(st, e.through(st, c.args[0]))
            b = irb.Builder(e, st)
            if v[0] == "adt" and v[1] in (X + "Expr", PA + "Pattern"):
                n = idnum(fields(self.mir, v)["id"])
                if n is None or n[0] != 1:
                    raise Bad("a part that is not known")
                if v[1] == X + "Expr" and ("e", n[1]) in self.children:
                    return [(st, b.term(self.part(n[1])))]
                if v[1] == PA + "Pattern" and ("p", n[1]) in self.children:
                    return [(st, b.pat(self.ppart(n[1])))]
            if v[0] == "sym":
                k = {AT + "Type": "type", AT + "Satisfaction": "satisfaction"}.get(v[2][1] if v[2][0] == "adt" else "")
                if k:
                    return [(st, b.ct(("id", self.number(k, v[1]))))]
            return None
        if d == TR + "Env::issue_ct":
            return [(st, irb.Builder(e, st).ctid(self.number(*self.con(e, st, c.args[1], c.targs))))]
        if d == TR + "Env::issue_rt":
            return [(st, irb.Builder(e, st).rtid(self.number(*self.con(e, st, c.args[1], c.targs))))]
        if d in (TR + "Env::alloc_rt", TR + "Env::alloc_ct"):
            s = st.fork()
            s.emit("fresh")
            n = FRESH + sum(x[0] == "fresh" for x in s.events)
            b = irb.Builder(e, s)
            return [(s, (b.rtid if d.endswith("rt") else b.ctid)(n))]
        if d == TR + "Env::module_set":
            return [(st, self.set_)]
        if d.startswith("llrl::module::set::ModuleSet::"):
            q = d.split("::")[-1]
            if q == "ast":
                v = e.res(st, e.through(st, c.args[1]))
                k = None
                for t in c.targs:
                    if t[0] == "adt" and (t[1].startswith(DE) or t[1].startswith("llrl::ast::")):
                        k = t[1].split("::")[-1]
                if k is None or v[0] != "adt":
                    raise Bad("asks for a definition that is not known")
                key = (k,) + idnum(v)
            else:
                key = self.con(e, st, c.args[1], c.targs)
            if (q,) + key not in self.table:
                if q == "kind_of":
                    raise Bad("asks for a kind")
                # nothing of this sort is known of the construct: the module set has no answer
                return [(st, NONE)]
            v = self.table[(q,) + key]
            return [(st, some(v if q == "ast" and v[0] == "adt" else e.new_cell(st, v[1] if v[0] == "byref" else v)))]
        if p.endswith("as llrl::ast::builtin::SyntaxBody>::pack") or d == "llrl::ast::builtin::SyntaxBody::pack":
            v = e.res(st, c.args[0])
            if v[0] == "adt" and v[3] == "Use":
                v = ("app", "use", tuple(("s", str(y)) for y in self.con(e, st, v[4][0], ())), ("?",))
            return [(st, ("app", "syntax", (v, e.res(st, c.args[1])), ("adt", "llrl::sexp::Sexp", ())))]
        if d == "std::clone::Clone::clone":
            v = e.res(st, e.through(st, c.args[0]))
            if v[0] == "sym":
                return [(st, v)]
        return None

    # -- running
    def run(self):
        p, args, targs = self.root
        return self.e.call_fn(self.st, p, args, targs)


def run_case(name, build):
    c, want = build()
    bad = []
    outs = c.run()
    e = c.e
    for x in e.panics:
        bad.append("%s: can panic: %s" % (name, str(x[1:])[:200]))
    if e.cuts:
        raise Bad("not analysed to the end: %s" % str(e.cuts[0])[:200])
    lost(e)
    if not outs and not bad:
        raise Bad("no way through")
    if callable(want):
        want(outs, lambda t: bad.append("%s: %s" % (name, t)))
    else:
        w = rename(norm(want), {})
        for st, v in outs:
            g = rename(norm(Read(c, st).any(v)), {})
            if g != w:
                bad.append("%s: translated to %s instead of %s" % (name, show(c, g), show(c, w)))
    return bad, len(outs), set(e.analysed)


def show(c, t):
    back = {n: " ".join(map(str, k)) for k, n in c.ids.items()}

    def f(x):
        if isinstance(x, int) and not isinstance(x, bool):
            return back.get(x, str(x))
        if isinstance(x, list):
            return "[%s]" % ", ".join(f(y) for y in x)
        if isinstance(x, tuple):
            return "(%s)" % " ".join(f(y) for y in x)
        return str(x)
    return f(t)[:300]


# ---------------------------------------------------------------- expressions and patterns
def auto(fun, ty, called):
    return ("call", "std", ("fun", fun, ("clos", (), ty), None), None, []) if called else ("fun", fun, ty, None)


def num(c, *k):
    """("id", n) with the numbers that are references to global things"""
    return ("id", c.number(*k))


def fixfun(t):
    """the reader writes the target of a function by its number when it is one"""
    if isinstance(t, list):
        return [fixfun(x) for x in t]
    if isinstance(t, tuple):
        t = tuple(fixfun(x) for x in t)
        if t[:1] == ("fun",) and len(t) == 4:
            f = norm(t[1])
            return ("fun", f[1] if isinstance(f, tuple) and f[0] == "id" else f) + t[2:]
    return t


def case(mir, name, ty, make):
    def build():
        c = Tr(mir)
        v, want = make(c)
        c.root = ("<%s as %sTranslate>::translate" % (ty, TR), [v if v[0] == "ref" else c.a.box(v), c.env], (c.self_ty,))
        return c, want if callable(want) else fixfun(want)
    return name, build


FN = "of a function type"   # a constant whose type is that of functions


def const(n):
    return n in (None, FN)


GENERICS = [((), ()), (("A", "B"), ()), (("A", "B"), ("s", "t")), ((), ("s",))]


def fname(n):
    return {None: "constant", FN: "constant of a function type"}.get(n, "with %s parameters" % n)


def expr_table(mir):
    g = []

    def ex(name, f):
        def make(c):
            rep, fs, want = f(c)
            return c.node(1, rep, *fs), want
        g.append(case(mir, "expression " + name, X + "Expr", make))

    def pt(name, f):
        def make(c):
            rep, fs, want = f(c)
            return c.pnode(1, rep, *fs), want
        g.append(case(mir, "pattern " + name, PA + "Pattern", make))

    def using(c, kind, ts, ss):
        c.know("type_of", ("Expr", 1, 1), c.ty("T"))
        c.know("instantiation_of", ("Expr", 1, 1), c.inst(ts, ss))
        return tuple(c.cty(t) for t in ts) + tuple(c.csat(s) for s in ss)

    # uses of what is defined
    for (ts, ss), n in itertools.product(GENERICS, (None, 0, 2, FN)):
        def f(c, ts=ts, ss=ss, n=n):
            args = using(c, "Function", ts, ss)
            c.know("ast", ("Function", 1, 50), ("byref", function(c, 50, n, transparent=False)))
            return "Use", (c.use(c.value("Function", 50)),), auto(("inst", num(c, "Function", 1, 50), args), c.cty("T"), const(n))
        ex("use of a function %s, %d types %d instances" % (fname(n), len(ts), len(ss)), f)

        if n == FN:
            kinds = ()
        else:
            kinds = ("Data", "Builtin")

        def f(c, ts=ts, ss=ss, n=n):
            args = using(c, "BuiltinOp", ts, ss)
            body = c.plain_ty() if n is None else c.fun_ty(*["P%d" % i for i in range(n)], "R")
            c.know("ast", ("BuiltinOp", 1, 50), ("byref", c.a.struct(DE + "BuiltinOp", id=c.a.nid(50), ann=c.ann(c.ascheme((), (), body)), builtin_name=("s", "no-op"))))
            return "Use", (c.use(c.value("BuiltinOp", 50)),), auto(("inst", num(c, "BuiltinOp", 1, 50), args), c.cty("T"), const(n))
        if n != FN:
            ex("use of an operation %s, %d types %d instances" % (fname(n), len(ts), len(ss)), f)
        for kind in kinds:
            def f(c, ts=ts, ss=ss, n=n, kind=kind):
                args = using(c, kind + "ValueCon", ts, ss)
                c.know("ast", (kind + "ValueCon", 1, 50), ("byref", valuecon(c, kind, 50, n)))
                return "Con", (c.a.enum(X + "ValueCon", kind, c.a.nid(50)),), auto(("inst", num(c, kind + "ValueCon", 1, 50), args), c.cty("T"), const(n))
            ex("use of a %s constructor %s, %d types %d instances" % (kind.lower(), fname(n), len(ts), len(ss)), f)
        for own in GENERICS:
            def f(c, ts=ts, ss=ss, n=n, own=own):
                ots, oss = tuple("O" + t for t in own[0]), tuple("o" + s for s in own[1])
                using(c, "ClassMethod", ots + ts, oss + ("instance",))
                c.know("ast", ("ClassMethod", 1, 50), ("byref", classmethod_(c, 50, own, n)))
                args = tuple(c.cty(t) for t in ots) + tuple(c.csat(s) for s in oss)
                return "Use", (c.use(c.value("ClassMethod", 50)),), auto(("inst", ("get", c.csat("instance"), c.number("ClassMethod", 1, 50)), args), c.cty("T"), const(n))
            if not ss:
                ex("use of a class method %s, %d types %d instances, class with %d" % (fname(n), len(own[0]), len(own[1]), len(ts)), f)
    for n in (None, 0, 2):
        def f(c, n=n):
            using(c, "CFunction", (), ())
            body = c.plain_ty() if n is None else c.fun_ty(*["P%d" % i for i in range(n)], "R")
            c.know("ast", ("CFunction", 1, 50), ("byref", c.a.struct(DE + "CFunction", id=c.a.nid(50), ann=c.ann(body), c_name=("s", "c_name"))))
            return "Use", (c.use(c.value("CFunction", 50)),), auto(num(c, "CFunction", 1, 50), c.cty("T"), const(n))
        ex("use of a C function %s" % fname(n), f)
    for kind in ("Parameter", "LocalVar", "PatternVar"):
        def f(c, kind=kind):
            c.know("type_of", ("Expr", 1, 1), c.ty("T"))
            return "Use", (c.use(c.value(kind, 50)),), ("var", c.number(kind, 1, 50), c.cty("T"))
        ex("use of a %s" % kind, f)
    for ts, ss in GENERICS:
        def f(c, ts=ts, ss=ss):
            args = using(c, "LocalFun", ts, ss)
            return "Use", (c.use(c.value("LocalFun", 50)),), ("localfun", c.number("LocalFun", 1, 50), args, c.cty("T"))
        ex("use of a local function, %d types %d instances" % (len(ts), len(ss)), f)

    # constants
    for name, v, w in consts():
        def f(c, v=v, w=w):
            c.know("type_of", ("Expr", 1, 1), c.ty("T"))
            return "Const", (v(c),), w(c)
        ex("constant " + name, f)

        def f(c, v=v, w=w):
            c.know("type_of", ("Pattern", 1, 1), c.ty("T"))
            return "Const", (v(c),), ("pconst", w(c))
        pt("constant " + name, f)

    # forms
    def shapes(c, how, *ns):
        for n in ns:
            if how == 1:
                c.shape[n] = lambda n: ("seq", [("var", 8000 + n, "unit")], ("var", 9000 + n, ("id", 9000 + n)))
            if how == 2:
                c.shape[n] = lambda n: ("let", [(7000 + n, "unit", ("var", 8000 + n, "unit"))], ("var", 9000 + n, ("id", 9000 + n)))
            if how == 3:
                c.shape[n] = lambda n: ("call", "std", ("var", 9000 + n, ("clos", (), ("id", 9000 + n))), None, [])
            if how == 4:
                c.shape[n] = lambda n: ("never",)
            if how == 5:
                c.shape[n] = lambda n: ("const", "unit")
            if how == 6:
                c.shape[n] = lambda n: ("fun", 9000 + n, ("clos", (), ("id", 9000 + n)), None)

    for how in range(7):
        k = "" if not how else " (parts of form %d)" % how
        reps = [(v["n"], len(v["fields"])) for v in mir.adts[X + "ExprRep"]["variants"] if v["n"] != "Con"]
        for n in range(4):
            for rep, nf in reps if not how else reps[:1]:
                def f(c, n=n, how=how, rep=rep, nf=nf):
                    shapes(c, how, *range(2, 3 + n))
                    callee = c.expr(2, c.a.enum(X + "ExprRep", rep, *[("sym", "field %d of the callee" % i, ("?",)) for i in range(nf)]))
                    return "App", (c.a.box(c.a.struct(X + "ExprApply", callee=callee, args=("arr", tuple(c.expr(3 + i) for i in range(n))))),), \
                        ("call", "std", c.part(2), None, [c.part(3 + i) for i in range(n)])
                ex("application of a %s to %d%s" % (rep, n, k), f)

            def f(c, n=n, how=how):
                shapes(c, how, *range(2, 3 + n))
                return "Seq", (c.a.box(c.a.struct(X + "ExprSeq", stmts=("arr", tuple(c.expr(3 + i) for i in range(n))), ret=c.expr(2))),), \
                    ("seq", [c.part(3 + i) for i in range(n)], c.part(2))
            ex("sequence of %d%s" % (n + 1, k), f)

            def f(c, n=n, how=how):
                shapes(c, how, *range(2, 3 + n))
                return "Match", (c.a.box(c.a.struct(X + "ExprMatch", target=c.expr(2), clauses=("arr", tuple(("tup", (c.pat(20 + i), c.expr(3 + i))) for i in range(n))))),), \
                    ("match", c.part(2), [(c.ppart(20 + i), c.part(3 + i)) for i in range(n)])
            ex("match of %d%s" % (n, k), f)

        def f(c, how=how):
            shapes(c, how, 2, 3, 4)
            return "If", (c.a.box(c.a.struct(X + "ExprIf", cond=c.expr(2), then=c.expr(3), else_=c.expr(4))),), ("if", c.part(2), c.part(3), c.part(4))
        ex("if" + k, f)

        def f(c, how=how):
            shapes(c, how, 2, 3)
            return "While", (c.a.box(c.a.struct(X + "ExprWhile", cond=c.expr(2), body=c.expr(3))),), ("while", c.part(2), c.part(3))
        ex("while" + k, f)

        def f(c, how=how):
            shapes(c, how, 2)
            return "Return", (c.a.box(some(c.expr(2))),), ("return", c.part(2))
        ex("return with a value" + k, f)

        def f(c, how=how):
            shapes(c, how, 2)
            return "Annotate", (c.a.box(c.a.struct(X + "ExprAnnotate", body=c.expr(2), ann=c.ann(c.asty("A")))),), c.part(2)
        ex("annotation" + k, f)
        # definitions inside: every order of variables and functions
        for ks in [k for n in range(4) for k in itertools.product("vf", repeat=n)]:
            if how and len(ks) > 2:
                continue

            def f(c, ks=ks, how=how):
                shapes(c, how, 2, *range(3, 3 + len(ks)))
                E = c.either("L", c.ty("T"))[:2]
                defs, vs, fs = [], [], []
                for i, k in enumerate(ks):
                    if k == "v":
                        c.know("type_of", ("LocalVar", 1, 40 + i), c.ty("V%d" % i))
                        defs.append(c.either("Left", c.a.struct(X + "LocalVar", id=c.a.nid(40 + i), ann=NONE, init=c.expr(3 + i))))
                        vs.append((c.number("LocalVar", 1, 40 + i), c.cty("V%d" % i), c.part(3 + i)))
                    else:
                        d, w = localfun(c, 40 + i, 3 + i, i % 3, GENERICS[(i + len(ks)) % 4])
                        defs.append(c.either("Right", d))
                        fs.append(w)
                return "Let", (c.a.box(c.a.struct(X + "ExprLet", defs=("arr", tuple(defs)), body=c.expr(2))),), ("letfun", fs, ("let", vs, c.part(2)))
            ex("let %s%s" % ("".join(ks), k), f)

    def f(c):
        return "Return", (c.a.box(NONE),), ("return", ("const", "unit"))
    ex("return", f)
    for kind in ("Function", "LocalVar", "DataTypeCon", "Macro"):
        def f(c, kind=kind):
            c.know("symbol_of", ("Expr", 1, 1), c.symbol("the expression"))
            use = c.use(c.construct(kind, 50))
            return "Capture", (use,), ("const", "sexp", num(c, "DataTypeCon", 0, 510),
                                       ("app", "syntax", (("app", "use", (("s", kind), ("s", "1"), ("s", "50")), ("?",)), c.loc("the expression")), ("adt", "llrl::sexp::Sexp", ())))
        ex("capture of a %s" % kind, f)
    for n in (0, 1, 2):
        for which, mid, idx in (("Builtin", 0, 501), ("Builtin", 1, 501), ("Builtin", 0, 500), ("Data", 0, 501)):
            def f(c, n=n, which=which, mid=mid, idx=idx):
                c.know("symbol_of", ("Expr", 1, 1), c.symbol("the expression"))
                c.know("symbol_of", ("Expr", 1, 2), c.symbol("the constructor"))
                c.know("type_of", ("Expr", 1, 2), c.ty("T"))
                c.know("instantiation_of", ("Expr", 1, 2), c.inst(("S",), ()))
                c.know("ast", (which + "ValueCon", mid, idx), ("byref", valuecon(c, which, idx, 1, mid)))
                callee = c.node(2, "Con", c.a.enum(X + "ValueCon", which, c.a.nid(idx, mid)))
                w = ("call", "std", ("fun", ("inst", num(c, which + "ValueCon", mid, idx), (c.cty("S"),)), c.cty("T"), None), None, [c.part(3 + i) for i in range(n)])
                if n == 1 and (which, mid, idx) == ("Builtin", 0, 501):
                    # marked with where it stands in the source
                    w = ("syntax", c.loc("the expression"), c.part(3))
                return "App", (c.a.box(c.a.struct(X + "ExprApply", callee=callee, args=("arr", tuple(c.expr(3 + i) for i in range(n))))),), w
            ex("application of %s constructor %d.%d to %d" % (which.lower(), mid, idx, n), f)

    # patterns
    for as_ in (0, 1):
        def f(c, as_=as_):
            c.know("type_of", ("PatternVar", 1, 40), c.ty("T"))
            return "Var", boxed(c, "Var", c.a.struct(PA + "PatternVar", id=c.a.nid(40), as_pat=some(c.pat(20)) if as_ else NONE)), \
                ("pvar", c.number("PatternVar", 1, 40), c.cty("T"), c.ppart(20) if as_ else None)
        pt("variable%s" % (" with a pattern" if as_ else ""), f)

    def f(c):
        c.know("type_of", ("Pattern", 1, 1), c.ty("T"))
        return "Wildcard", (), ("pwild", c.cty("T"))
    pt("wildcard", f)
    for at, n, (ts, ss) in itertools.product(range(3), (None, 0, 1, 3), GENERICS[:2]):
        def f(c, at=at, n=n, ts=ts):
            c.know("instantiation_of", ("Pattern", 1, 1), c.inst(ts, ()))
            c.know("ast", ("DataValueCon", 1, 60 + at), ("byref", valuecon(c, "Data", 60 + at, n)))
            datatype(c, [NONE] * 3)
            fs = NONE if n is None else some(("arr", tuple(c.pat(20 + i) for i in range(n))))
            return "Decon", boxed(c, "Decon", c.a.struct(PA + "PatternDecon", use_=c.use(c.a.enum(X + "ValueCon", "Data", c.a.nid(60 + at))), fields=fs)), \
                ("pdata", ("inst", num(c, "DataTypeCon", 1, 55), tuple(c.cty(t) for t in ts)), at, [c.ppart(20 + i) for i in range(n or 0)])
        pt("of constructor %d of 3 %s, %d types" % (at + 1, fname(n), len(ts)), f)
    return g


def boxed(c, var, v):
    """the contents of a form of pattern, in a box where there is one"""
    a = c.mir.adts[PA + "PatternRep"]
    t, = [c.mir.ty(a["crate"], x["fields"][0]["t"]) for x in a["variants"] if x["n"] == var]
    return (c.a.box(v) if t[1].endswith("::Box") else v,)


def consts():
    K = "llrl::ast::consts::Const"
    E = lambda c, n, *f: c.a.enum(K, n, *f)
    out = []
    for b in (False, True):
        for v in (0, 5, 1 << 63, (1 << 64) - 1):
            out.append(("integer %s %d" % ("signed" if b else "unsigned", v), lambda c, b=b, v=v: E(c, "Integer", B(b), I(v, "u64")), lambda c, b=b, v=v: ("const", "int", c.cty("T"), int(b), v)))
    fp = ("sym", "fp", ("adt", "ordered_float::OrderedFloat", ()))
    s = ("sym", "text", ("adt", "std::string::String", ()))
    x = ("sym", "sexp", ("adt", "llrl::sexp::Sexp", ()))
    out.append(("floating point number", lambda c: E(c, "FPNumber", fp), lambda c: ("const", "fp", c.cty("T"), fp)))
    out.append(("string", lambda c: E(c, "String", s), lambda c: ("const", "str", s)))
    out.append(("character", lambda c: E(c, "Char", I(0x3042, "char")), lambda c: ("const", "char", 0x3042)))
    out.append(("quotation", lambda c: E(c, "SyntaxSexp", c.a.box(x)), lambda c: ("const", "sexp", num(c, "DataTypeCon", 0, 510), x)))
    return out


def either(c, k, v):
    p = "either::Either" if "either::Either" in c.mir.adts else "itertools::Either"
    return ("adt", p, 0 if k == "Left" else 1, k, (v,))


Tr.either = either


# ---------------------------------------------------------------- definitions
def params(c, n, at):
    return NONE if const(n) else some(c.params(*range(at, at + n)))


def function(c, i, n, transparent=False):
    return c.a.struct(DE + "Function", id=c.a.nid(i), transparent=B(transparent), params=params(c, n, 300), ann=NONE, body=c.expr(2))


def valuecon(c, kind, i, n, mid=1, name="no-op"):
    fs = NONE if n is None else some(("arr", tuple(c.a.struct(DE + "ValueConField", id=c.a.nid(400 + j), ty=c.ty("F%d" % j)) for j in range(n))))
    kw = {} if kind == "Data" else {"builtin_name": ("s", name)}
    return c.a.struct(DE + kind + "ValueCon", id=c.a.nid(i, mid), fields=fs, type_con=c.a.nid(55), **kw)


def gens(own, base=200):
    return list(range(base, base + len(own[0]))), list(range(base + 20, base + 20 + len(own[1])))


def scheme(c, own, body, base=200):
    ts, ss = gens(own, base)
    return c.ascheme(ts, [c.acons(s, 90, c.ty("CA")) for s in ss], body)


def cparams(c, own, base=200):
    ts, ss = gens(own, base)
    return [c.number("TypeParameter", 1, t) for t in ts] + [c.number("Constraint", 1, s) for s in ss]


def signature(c, n, base=0):
    """the type of something with n parameters: value, parameter types, result"""
    if n == FN:
        return c.fun_ty("P0", "P1", "R"), [], ("inst", ("id", c.number("BuiltinTypeCon", 0, 2)), (c.cty("P0"), c.cty("P1"), c.cty("R")))
    if n is None:
        # a value of a type that is no function type
        return c.plain_ty(), [], ("id", c.number("DataTypeCon", 1, 91))
    ps = ["P%d" % i for i in range(n)]
    return c.fun_ty(*ps, "R"), [c.cty(p) for p in ps], c.cty("R")


def classmethod_(c, i, own, n, body=None, transparent=False):
    t, _, _ = signature(c, n)
    return c.a.struct(DE + "ClassMethod", id=c.a.nid(i), transparent=B(transparent), ann=c.ann(scheme(c, own, t)), params=params(c, n, 300),
                      default_body=NONE if body is None else some(body), class_con=c.a.nid(80))


def localfun(c, i, body, n, own):
    t, ps, r = signature(c, n)
    base = 500 + 60 * (i - 40)
    c.know("scheme_of", ("LocalFun", 1, i), scheme(c, own, t, base))
    at = 300 + 10 * (i - 40)
    return c.a.struct(X + "LocalFun", id=c.a.nid(i), params=c.params(*range(at, at + n)), ann=NONE, body=c.expr(body)), \
        (c.number("LocalFun", 1, i), cparams(c, own, base), [(c.number("Parameter", 1, at + j), p) for j, p in enumerate(ps)], r, c.part(body))


def datatype(c, cons, repr_="Default", ts=()):
    """the data type 55 with constructors 60.."""
    con = c.a.struct(DE + "DataTypeCon", id=c.a.nid(55), repr=c.a.enum(DE + "DataRepr", repr_), ty_params=("arr", tuple(c.aparam(200 + i) for i, _ in enumerate(ts))),
                     value_cons=("arr", tuple(c.a.nid(60 + i) for i in range(len(cons)))))
    root = c.root(data_type_cons=[con], data_value_cons=[x for x in (valuecon(c, "Data", 60 + i, None) if v == NONE else v for i, v in enumerate(cons))])
    c.know("ast", ("DataTypeCon", 1, 55), c.a.struct(DE + "DataType", con=c.a.box(con), root=root))


def def_case(mir, name, kind, i, make, mid=1):
    """translate_def of a construct"""
    def build():
        c = Tr(mir)
        want = make(c)
        c.root_ = None
        k = c.a.enum("llrl::ast::construct::Construct", kind, c.a.nid(i, mid))
        p = [x for x in mir.fns if x == TR + "Env::translate_def"]
        if not p:
            raise Bad("no function translates definitions")
        c.root = (p[0], [c.env, k], (c.self_ty,))
        return c, fixfun(want if want is None or callable(want) else ("some", want))
    return "definition " + name, build


def fn_def(c, ps, r, body, transparent, kind="Standard"):
    return ("function", None, ps, r, body, kind, transparent)


def def_table(mir):
    g = []

    def df(name, kind, f, i=50, mid=1):
        g.append(def_case(mir, name, kind, i, f, mid))
    for own, n, tr in itertools.product(GENERICS, (None, 0, 1, 3, FN), (False, True)):
        what = "%s%s, %d types %d instances" % (fname(n), " transparent" if tr else "", len(own[0]), len(own[1]))

        def f(c, own=own, n=n, tr=tr):
            t, ps, r = signature(c, n)
            c.know("scheme_of", ("Function", 1, 50), scheme(c, own, t))
            c.know("ast", ("Function", 1, 50), ("byref", function(c, 50, n, tr)))
            return ("generic", cparams(c, own), fn_def(c, [(c.number("Parameter", 1, 300 + j), p) for j, p in enumerate(ps)], r, c.part(2), tr))
        df("function " + what, "Function", f)
        if own[1] != ("s",):
            for cl in ((), ("X",), ("X", "Y")):
                def f(c, own=own, n=n, tr=tr, cl=cl):
                    t, ps, r = signature(c, n)
                    c.know("ast", ("ClassMethod", 1, 50), ("byref", classmethod_(c, 50, own, n, c.expr(2), tr)))
                    class_(c, cl, [50])
                    return ("generic", [c.number("TypeParameter", 1, 600 + j) for j, _ in enumerate(cl)] + [c.number("Constraint", 1, 81)],
                            ("generic", cparams(c, own), fn_def(c, [(c.number("Parameter", 1, 300 + j), p) for j, p in enumerate(ps)], r, c.part(2), tr)))
                df("class method %s, class with %d" % (what, len(cl)), "ClassMethod", f)
            for io in GENERICS:
                def f(c, own=own, n=n, tr=tr, io=io):
                    t, ps, r = signature(c, n)
                    c.know("scheme_of", ("InstanceMethod", 1, 50), scheme(c, own, t))
                    c.know("ast", ("InstanceMethod", 1, 50), ("byref", instmethod(c, 50, n, tr, 70)))
                    instance(c, io, [], [])
                    return ("generic", cparams(c, io, 700), ("generic", cparams(c, own), fn_def(c, [(c.number("Parameter", 1, 300 + j), p) for j, p in enumerate(ps)], r, c.part(2), tr)))
                if tr or n is not None:
                    df("instance method %s, instance with %d %d" % (what, len(io[0]), len(io[1])), "InstanceMethod", f)
    for n in (None, 0, 2):
        def f(c, n=n):
            c.know("ast", ("ClassMethod", 1, 50), ("byref", classmethod_(c, 50, ((), ()), n)))
            class_(c, ("X",), [50])
            return "nothing"
        nm, b = def_case(mir, "class method %s without a body" % fname(n), "ClassMethod", 50, f)
        g.append((nm, lambda b=b: (b()[0], None)))

        def f(c, n=n):
            t, ps, r = signature(c, n)
            c.know("ast", ("CFunction", 1, 50), ("byref", c.a.struct(DE + "CFunction", id=c.a.nid(50), ann=c.ann(t), c_name=("s", "c_name"))))
            ids = [FRESH + 1 + j for j in range(len(ps))]

            def rule(outs, say):
                for st, v in outs:
                    got = rename(norm(Read(c, st).any(v)), {})
                    w = norm(("some", fn_def(c, list(zip(ids, ps)), r, ("call", "c", ("s", "c_name"), r, [("var", i, p) for i, p in zip(ids, ps)]), False)))
                    got = cname(got)
                    w = rename(cname(w), {})
                    # inlining it or not is the same
                    if got[1][:6] != w[1][:6]:
                        say("translated to %s instead of %s" % (show(c, got), show(c, w)))
            return rule
        df("C function " + fname(n), "CFunction", f)

    def f(c):
        c.know("ast", ("Macro", 1, 50), ("byref", c.a.struct(DE + "Macro", id=c.a.nid(50), param=c.a.struct(DE + "Parameter", id=c.a.nid(300)), body=c.expr(2))))
        syn = ("inst", num(c, "BuiltinTypeCon", 0, 500), (num(c, "DataTypeCon", 0, 510),))
        return fn_def(c, [(c.number("Parameter", 1, 300), syn)], ("inst", num(c, "DataTypeCon", 0, 380), (syn, num(c, "BuiltinTypeCon", 0, 340))), c.part(2), False, "Macro")
    df("macro", "Macro", f)
    # data types
    for r, ts, cons in itertools.product(("Default", "Value", "C"), ((), ("A", "B")), ([], [None], [0], [2], [None, 1, 3], [2, None])):
        def f(c, r=r, ts=ts, cons=cons):
            vs = []
            for i, n in enumerate(cons):
                fs = NONE if n is None else some(("arr", tuple(c.a.struct(DE + "ValueConField", id=c.a.nid(400 + 10 * i + j), ty=c.ty("F%d.%d" % (i, j))) for j in range(n))))
                vs.append(c.a.struct(DE + "DataValueCon", id=c.a.nid(60 + i), fields=fs, type_con=c.a.nid(55)))
            datatype(c, vs, r, ts)
            return ("generic", [c.number("TypeParameter", 1, 200 + i) for i, _ in enumerate(ts)],
                    ("data", {"Default": "Boxed"}.get(r, r), [[c.cty("F%d.%d" % (i, j)) for j in range(n or 0)] for i, n in enumerate(cons)]))
        df("data type %s %d types, constructors of %s" % (r, len(ts), cons), "DataTypeCon", f, 55)
    for at, n, own in itertools.product(range(3), (None, 0, 1, 3), GENERICS[:2]):
        def f(c, at=at, n=n, own=own):
            t, ps, r = signature(c, n)
            c.know("scheme_of", ("DataValueCon", 1, 60 + at), scheme(c, own, t))
            c.know("ast", ("DataValueCon", 1, 60 + at), ("byref", valuecon(c, "Data", 60 + at, n)))
            datatype(c, [NONE] * 3)
            ids = [FRESH + 1 + j for j in range(len(ps))]
            return ("generic", cparams(c, own), fn_def(c, list(zip(ids, ps)), r, ("data", r, at, [("var", i, p) for i, p in zip(ids, ps)]), True))
        df("constructor %d of 3 %s, %d types" % (at + 1, fname(n), len(own[0])), "DataValueCon", f, 60 + at)
    # instances
    for io, given, sup, ca in itertools.product(GENERICS, ([], [0], [0, 1], [1], [2, 0, 1]), (0, 1, 2), (("X",), ("X", "Y"))):
        def f(c, io=io, given=given, sup=sup, ca=ca):
            # three methods, of which some are given (in this order); the others are those of the class
            class_(c, ca, [50, 51, 52], sup)
            instance(c, io, given, ca)
            c.know("instantiation_of", ("InstanceCon", 1, 70), c.inst((), ["sup%d" % j for j in range(sup)]))
            ps = cparams(c, io, 700)
            mine = tuple(("id", p) for p in ps)
            this = ("inst", num(c, "InstanceCon", 1, 70), mine)
            t = []
            for j in range(3):
                k = c.number("ClassMethod", 1, 50 + j)
                t.append((k, ("inst", num(c, "InstanceMethod", 1, 65 + j), mine) if j in given else ("inst", ("id", k), tuple(c.cty(x) for x in ca) + (this,))))
            for j in range(sup):
                t.append((c.number("Constraint", 1, 85 + j), c.csat("sup%d" % j)))
            return ("generic", ps, ("table", sorted(t)))
        df("instance %d %d with methods %s of 3, %d superclasses, class with %d" % (len(io[0]), len(io[1]), given, sup, len(ca)), "InstanceCon", f, 70)
    # what has no definition of its own
    cons = [v["n"] for v in mir.adts["llrl::ast::construct::Construct"]["variants"]]
    have = {"Function", "CFunction", "BuiltinOp", "Macro", "DataTypeCon", "DataValueCon", "BuiltinTypeCon", "BuiltinValueCon", "ClassMethod", "InstanceMethod", "InstanceCon"}
    for k in cons:
        if k in have:
            continue
        nm, b = def_case(mir, "of a %s" % k, k, 50, lambda c: "nothing")
        g.append((nm, lambda b=b: (b()[0], None)))
    if have - set(cons):
        raise Bad("definitions of other kinds than known")
    g += other_table(mir)
    return g


def cname(t):
    if isinstance(t, (tuple, list)):
        if isinstance(t, tuple) and t[:2] == ("s", "c_name"):
            return "c_name"
        return type(t)(cname(x) for x in t)
    return t


def class_(c, ts, methods, sup=0):
    con = c.a.struct(DE + "ClassCon", id=c.a.nid(80), constraint_id=c.a.nid(81), ty_params=("arr", tuple(c.aparam(600 + i) for i, _ in enumerate(ts))),
                     superclasses=("arr", tuple(c.acons(85 + j, 89, c.ty("SA")) for j in range(sup))), methods=("arr", tuple(c.a.nid(m) for m in methods)), is_sealed=B(False))
    root = c.root(class_cons=[con], class_methods=[classmethod_(c, m, ((), ()), 1, c.expr(2)) for m in methods])
    c.know("ast", ("ClassCon", 1, 80), c.a.struct(DE + "Class", con=c.a.box(con), root=root))


def instmethod(c, i, n, tr, inst, method=50):
    return c.a.struct(DE + "InstanceMethod", id=c.a.nid(i), transparent=B(tr), params=params(c, n, 300), ann=NONE, body=c.expr(2), class_method=c.use(c.a.nid(method)), instance_con=c.a.nid(inst))


def instance(c, io, given, ca):
    ts, ss = gens(io, 700)
    con = c.a.struct(DE + "InstanceCon", id=c.a.nid(70), ty_params=("arr", tuple(c.aparam(t) for t in ts)), s_params=("arr", tuple(c.acons(s, 90, c.ty("CA")) for s in ss)),
                     target=c.acons(71, 80, *[c.ty(x) for x in ca]), methods=("arr", tuple(c.a.nid(65 + j) for j in given)))
    root = c.root(instance_cons=[con], instance_methods=[instmethod(c, 65 + j, 1, False, 70, 50 + j) for j in given])
    c.know("ast", ("InstanceCon", 1, 70), c.a.struct(DE + "Instance", con=c.a.box(con), root=root))


# ---------------------------------------------------------------- types, dictionaries, initialisers
def other_table(mir):
    g = []
    T = AT + "Type"
    for k, n in (("Data", 55), ("Builtin", 56)):
        g.append(case(mir, "type constructor " + k, T, lambda c, k=k, n=n: (c.a.enum(T, "Con", c.a.enum(AT + "TypeCon", k, c.a.nid(n))), num(c, k + "TypeCon", 1, n))))
    for n in range(4):
        g.append(case(mir, "type application to %d" % n, T, lambda c, n=n: (
            c.a.enum(T, "App", c.a.box(c.ty("F")), ("arr", tuple(c.ty("A%d" % i) for i in range(n)))), ("inst", c.cty("F"), tuple(c.cty("A%d" % i) for i in range(n))))))
    g.append(case(mir, "type parameter", T, lambda c: (c.a.enum(T, "Gen", c.a.nid(33)), num(c, "TypeParameter", 1, 33))))
    S = AT + "Satisfaction"
    for n in range(4):
        def f(c, n=n):
            w = num(c, "Constraint", 1, 33)
            for i in range(n):
                w = ("get", w, c.number("Constraint", 1, 34 + i))
            return c.a.enum(S, "ByPremise", c.a.struct(AT + "SatisfactionByPremise", id=c.a.nid(33), path=("arr", tuple(c.a.nid(34 + i) for i in range(n))))), w
        g.append(case(mir, "premise through %d superclasses" % n, S, f))
    for ts, ss in GENERICS:
        g.append(case(mir, "instance of %d types %d instances" % (len(ts), len(ss)), S, lambda c, ts=ts, ss=ss: (
            c.a.enum(S, "ByInstance", c.a.struct(AT + "SatisfactionByInstance", use_=c.use(c.a.nid(70)), instantiation=c.inst(ts, ss))),
            ("inst", num(c, "InstanceCon", 1, 70), tuple(c.cty(t) for t in ts) + tuple(c.csat(s) for s in ss)))))

    def f(c):
        c.know("type_of", ("Expr", 1, 2), c.ty("T"))
        return c.a.enum(X + "InitExpr", "Eval", c.expr(2)), ("some", ("init", c.cty("T"), c.part(2)))
    g.append(case(mir, "initialiser", X + "InitExpr", f))
    g.append(case(mir, "module initialisation", X + "InitExpr", lambda c: (c.a.enum(X + "InitExpr", "EnsureInitialized", ("adt", "llrl::ast::node_id::ModuleId", 0, "", (I(3, "u32"),))), lambda outs, say: [
        say("is an initialiser of its own") for st, v in outs if Read(c, st).any(v) is not None])))
    for k in ("Function", "Macro"):
        g.append(case(mir, "reference to a " + k, "llrl::ast::node_id::NodeId<%s%s>" % (DE, k), lambda c, k=k: (c.a.nid(50), num(c, k, 1, 50))))
    return g


# ---------------------------------------------------------------- identifiers
class Ids:
    """the identifiers given out by a context, over a history of what is asked"""

    def __init__(self, mir, answers, nested):
        self.mir = mir
        self.answers, self.nested = answers, nested
        self.e = Engine(mir, self.hook)
        self.st = State()
        r = self.e.call_fn(self.st, LO + "context::Context::new", [], ())
        if len(r) != 1:
            raise Bad("a context that is not known")
        self.st = r[0][0]
        self.context = self.e.new_cell(self.st, r[0][1])
        self.self_ty = ("adt", LO + "context::TranslatorContext", (("adt", "std::collections::HashMap", ()),))
        self.a = Ast(mir, self.e, self.st)
        self.env = self.e.new_cell(self.st, self.a.struct(LO + "context::TranslatorContext", context=self.context, module_set=("sym", "module set", ("?",))))
        self.b = irb.Builder(self.e, self.st)

    def construct(self, kind, i, mid=1):
        return self.a.enum("llrl::ast::construct::Construct", kind, self.a.nid(i, mid))

    def method(self, name):
        ps = [p for p in self.mir.fns if "context::TranslatorContext" in p and p.endswith("Env<'m>>::" + name)]
        if len(ps) != 1:
            raise Bad("Env::%s of the translator is not found" % name)
        return ps[0]

    def ask(self, st, what, arg=None, env=None):
        args = [env or self.env] + ([self.construct(*arg)] if arg else [])
        n = {"ct": "issue_ct", "rt": "issue_rt", "new ct": "alloc_ct", "new rt": "alloc_rt"}[what]
        rs = self.e.call_fn(st, self.method(n), args, (("?",), ("?",), ("?",), ("adt", "llrl::ast::construct::Construct", ())))
        out = []
        for s, v in rs:
            v = self.e.res(s, v)
            while v[0] == "adt" and v[4]:
                v = self.e.res(s, v[4][0])
            if v[0] != "i":
                raise Bad("an identifier that is not known: %s" % str(v)[:200])
            s = s.fork()
            s.emit("given", what, arg, v[1])
            out.append(s)
        return out

    def hook(self, e, st, c):
        d = strip_generics(c.d)
        if d in ("std::convert::Into::into", "std::convert::From::from"):
            v = e.res(st, c.args[0])
            if v[0] == "adt" and v[1].endswith("::Construct"):
                return [(st, v)]
        if d == TR + "Env::translate_def":
            v = e.res(st, e.through(st, c.args[1]))
            if v[0] != "adt":
                raise Bad("a construct that is not known: %s" % str(v)[:300])
            key = (v[3],) + tuple(reversed(idnum(v[4][0])))
            s = st.fork()
            s.emit("definition", key)
            sts = [s]
            for what, arg in self.nested.get(key, ()):
                sts = [s2 for s1 in sts for s2 in self.ask(s1, what, arg, c.args[0])]
            return [(s, some(irb.Builder(e, s).def_(self.answers[key])) if self.answers.get(key) else NONE) for s in sts]
        return None


def run_ids(name, build):
    c, steps = build()
    bad = []
    sts = [c.st]
    for what, arg in steps:
        sts = [s2 for s1 in sts for s2 in c.ask(s1, what, arg)]
    e = c.e
    for x in e.panics:
        bad.append("%s: can panic: %s" % (name, str(x[1:])[:200]))
    if e.cuts:
        raise Bad("not analysed to the end: %s" % str(e.cuts[0])[:200])
    lost(e)
    for st in sts:
        ids, seen = {"ct": {}, "rt": {}}, {"ct": {}, "rt": {}}
        for ev in st.events:
            if ev[0] == "definition":
                k = ev[1]
                seen.setdefault(("def", k), 0)
                seen[("def", k)] += 1
                if seen[("def", k)] > 1:
                    bad.append("%s: %s is defined again" % (name, k))
            if ev[0] == "given":
                sort = ev[1][-2:]
                key = ev[2] if ev[2] else ("new", len(seen[sort]))
                if ids[sort].setdefault(key, ev[3]) != ev[3]:
                    bad.append("%s: %s is known by two identifiers" % (name, key))
                if seen[sort].setdefault(ev[3], key) != key:
                    bad.append("%s: %s and %s are known by the same identifier" % (name, key, seen[sort][ev[3]]))
        ctx = e.through(st, c.context)
        defs = dict(zip([f["n"] for f in c.mir.adts[LO + "context::Context"]["variants"][0]["fields"]], ctx[4]))["defs"]
        if defs[0] != "map" or defs[1] is not None:
            raise Bad("definitions that are not known")
        have = {idnum_(k): v for k, v in defs[2]}
        for k, i in ids["ct"].items():
            if k[0] == "new":
                continue
            want = c.answers.get(k)
            if (i in have) != (want is not None):
                bad.append("%s: %s %s" % (name, k, "has a definition from nowhere" if i in have else "is left without its definition"))
            elif want is not None:
                f = {x["n"]: y for x, y in zip(c.mir.adts[LO + "context::ProcessingDef"]["variants"][0]["fields"], e.through(st, have[i])[4])}
                rd = Read(c, st)
                g, w = rd.def_(e.through(st, f["def"])), want
                if g != w:
                    bad.append("%s: the definition of %s is %s instead of %s" % (name, k, g, w))
                ph = e.through(st, f["phase"])[3]
                if (ph == "Generalized") != (w[0] == "generic") or ph not in ("Generalized", "Instantiated"):
                    bad.append("%s: the definition %s of %s is taken to be %s" % (name, w, k, ph))
        for i in have:
            if i not in {x for k, x in ids["ct"].items()}:
                bad.append("%s: a definition of nothing" % name)
    return bad, len(sts), set(e.analysed)


def idnum_(v):
    while v[0] == "adt" and v[4]:
        v = v[4][0]
    return v[1] if v[0] == "i" else v


def id_table(mir):
    K = ["Function", "DataTypeCon", "ClassMethod", "InstanceCon"]
    A, B_, C_, D_ = ("Function", 40, 1), ("Function", 40, 2), ("Function", 41, 1), ("DataTypeCon", 40, 1)
    gen = ("generic", [7], ("alias", ("id", 7)))
    ali = ("alias", ("id", 9))

    def case_(name, steps, answers=(), nested=()):
        return name, lambda: (Ids(mir, dict(answers), dict(nested)), steps)
    yield case_("the same thing twice", [("ct", A), ("ct", A)])
    yield case_("the same thing after others", [("ct", A), ("ct", B_), ("ct", C_), ("ct", D_), ("ct", A), ("ct", B_), ("ct", C_), ("ct", D_)], {A: gen, C_: ali, D_: gen})
    yield case_("identifiers that are new between", [("new ct", None), ("ct", A), ("new ct", None), ("ct", B_), ("new ct", None), ("ct", A)], {A: ali})
    yield case_("a definition that refers to itself", [("ct", A), ("ct", A)], {A: gen}, {A: [("ct", A)]})
    yield case_("definitions that refer to each other", [("ct", A), ("ct", D_)], {A: gen, D_: ali, B_: gen}, {A: [("ct", D_), ("new ct", None), ("ct", B_)], D_: [("ct", A), ("ct", B_)], B_: [("ct", A)]})
    yield case_("what has no definition, in one that has", [("ct", A), ("ct", C_)], {A: ali}, {A: [("ct", C_), ("rt", ("LocalVar", 40, 1))]})
    V, W, U, P = ("LocalVar", 40, 1), ("LocalVar", 40, 2), ("LocalVar", 41, 1), ("Parameter", 40, 1)
    yield case_("variables", [("rt", V), ("rt", W), ("new rt", None), ("rt", U), ("rt", P), ("new rt", None), ("rt", V), ("rt", P), ("rt", W), ("rt", U)])
