"""Traversals of the syntax tree, and what the validator makes of a match expression.

Which parts a traversal has to reach is read off the type definitions: every position that holds a part of the same type."""
import itertools
from forms import *
import covers
from covers import PM, PAT, PATTY, TAG, ROW, MAT, FIN, VCON

X, PA, TY = "llrl::ast::expr::", "llrl::ast::pattern::", "llrl::ast::types::"
VAL = "llrl::module::sema::validator::"
EXPR, PATN = X + "Expr", PA + "Pattern"
BOXES = ("std::boxed::Box", "std::rc::Rc", "std::sync::Arc")
SEQS = ("std::vec::Vec", "smallvec::SmallVec", "std::collections::VecDeque")
MAPS = ("std::collections::HashMap", "std::collections::BTreeMap")


class Shapes:
    """values of a type, in every shape, with parts of one type left open and numbered"""

    def __init__(self, mir, target):
        self.mir, self.target = mir, target
        self.memo = {}

    def fields(self, t):
        from facts import subst
        a = self.mir.adts[t[1]]
        tm = {}
        for (i, n), x in zip(a["gen"], [x for x in t[2]]):
            tm[i] = x
        for k, v in enumerate(a["variants"]):
            yield k, v["n"], [subst(self.mir.ty(a["crate"], f["t"]), tm) for f in v["fields"]]

    def holds(self, t, seen=()):
        """can a value of this type have a part of the type?"""
        if t == ("adt", self.target, ()):
            return True
        if t in seen:
            return False
        if t[0] == "tuple":
            return any(self.holds(x, seen + (t,)) for x in t[1])
        if t[0] == "adt":
            if t[1] in BOXES + SEQS + MAPS + ("std::option::Option", "either::Either", "itertools::Either"):
                return any(self.holds(x, seen + (t,)) for x in t[2])
            if t[1] in self.mir.adts and t[1].startswith("llrl::"):
                return any(self.holds(x, seen + (t,)) for _, _, fs in self.fields(t) for x in fs)
        return False

    def shapes(self, t, skip=()):
        """functions from a builder to a value"""
        if not self.holds(t):
            return [lambda b: b.plain(t)]
        if t == ("adt", self.target, ()):
            return [lambda b: b.part()]
        if t[0] == "tuple":
            return [lambda b, q=q: ("tup", tuple(f(b) for f in q)) for q in itertools.product(*[self.shapes(x) for x in t[1]])]
        if t[1] in BOXES:
            return [lambda b, f=f: b.a.box(f(b)) for f in self.shapes(t[2][0])]
        if t[1] == "std::option::Option":
            return [lambda b: NONE] + [lambda b, f=f: some(f(b)) for f in self.shapes(t[2][0])]
        if t[1] in SEQS:
            fs = self.shapes(t[2][0])
            # none, every shape of an element, and all of them in a row
            return [lambda b: ("arr", ())] + [lambda b, f=f: ("arr", (f(b),)) for f in fs] + [lambda b: ("arr", tuple(f(b) for f in fs + fs))]
        if t[1] in MAPS:
            fs = self.shapes(t[2][1])
            return [lambda b: ("map", None, tuple((b.a.nid(b.next()), f(b)) for f in fs))]
        if t[1] in ("either::Either", "itertools::Either"):
            return [lambda b, f=f, k=k: ("adt", t[1], k, ("Left", "Right")[k], (f(b),)) for k in (0, 1) for f in self.shapes(t[2][k])]
        out = []
        for k, n, fs in self.fields(t):
            struct = self.mir.adts[t[1]]["kind"] == "Struct"
            for q in itertools.product(*[self.shapes(x) for x in fs]):
                out.append(lambda b, q=q, k=k, n=n: b.adt(t[1], k, "" if struct else n, q))
        return out


class Walk:
    """a traversal with the traversals of the parts replaced by records"""

    def __init__(self, mir, target, same=False):
        self.mir, self.target, self.same = mir, target, same
        self.st = State()
        self.e = Engine(mir, self.hook, max_visits=200, max_depth=80)
        self.a = Ast(mir, self.e, self.st)
        self.n = 1
        self.parts, self.inner, self.deep = [], 0, []
        self.extra = {}
        self.vinfo = None

    def next(self):
        self.n += 1
        return self.n

    def plain(self, t):
        return ("sym", "x%d" % self.next(), t)

    def part(self):
        n = self.next()
        (self.deep if self.inner else self.parts).append(n)
        return self.make(n)

    def make(self, n):
        if self.target == EXPR:
            return self.a.struct(EXPR, id=self.a.nid(n), rep=("sym", "rep", ("adt", X + "ExprRep", ())))
        if self.target == PATN:
            return self.a.struct(PATN, id=self.a.nid(n), rep=("sym", "rep", ("adt", PA + "PatternRep", ())))
        return ("sym", "part%d" % n, ("adt", self.target, ()))

    def adt(self, path, k, n, q):
        local = self.same and path == X + "LocalFun"
        self.inner += local
        r = ("adt", path, k, n, tuple(f(self) for f in q))
        self.inner -= local
        return r

    def name(self, st, v):
        v = self.e.res(st, self.e.through(st, v))
        if v[0] == "adt" and v[1].endswith("ExprDfsSameLevel"):
            v = self.e.res(st, self.e.through(st, v[4][0]))
        if v[0] == "adt" and v[1] in (EXPR, PATN):
            return idnum(fields(self.mir, v)["id"])[1]
        if v[0] == "sym" and v[1].startswith("part"):
            return int(v[1][4:])
        return "whole"

    def result(self, st, *ev):
        out = []
        for r in (ok(UNIT), err(("sym", "failure%d" % len(st.events), ("?",)))):
            s = st.fork()
            s.emit(*ev, r)
            out.append((s, r))
        return out

    def hook(self, e, st, c):
        if c.path.endswith(" as llrl::ast::Dfs>::dfs_") or c.d == "llrl::ast::Dfs::dfs_":
            return self.result(st, "part", self.name(st, c.args[0]))
        if c.d in ("std::ops::FnMut::call_mut", "std::ops::Fn::call", "std::ops::FnOnce::call_once") and e.through(st, c.args[0]) == self.f:
            a = e.res(st, c.args[1])
            return self.result(st, "self", self.name(st, a[1][0] if a[0] == "tup" else a))
        return None


def walk_case(mir, name, target, path, shape, same=False):
    def build():
        c = Walk(mir, target, same)
        c.f = ("sym", "visit", ("?",))
        v = shape(c)
        if target == EXPR:
            v = c.a.struct(EXPR, id=c.a.nid(0), rep=v)
        elif target == PATN:
            v = c.a.struct(PATN, id=c.a.nid(0), rep=v)
        r = c.a.box(v)
        if same:
            r = c.a.box(c.a.struct(X + "ExprDfsSameLevel", expr=r))
        c.root = (path, [r, c.a.box(c.f)], ())
        return c, lambda outs, say: walk_rule(c, outs, say)
    return name, build


def walk_rule(c, outs, say):
    me = 0 if c.target in (EXPR, PATN) else "whole"
    for st, v in outs:
        v = c.e.res(st, v)
        ev = [x for x in st.events if x[0] in ("part", "self")]
        failed = [x for x in ev if x[2][3] == "Err"]
        if failed:
            if v[3] != "Err":
                say("goes on as if nothing happened after a failure")
            if ev[-1] is not failed[0]:
                say("goes on after a failure")
            continue
        if v[3] != "Ok":
            say("fails, although nothing failed")
        got = sorted(x[1] for x in ev if x[0] == "part")
        for n in c.parts:
            if got.count(n) != 1:
                say("part %d of %d is reached %d times" % (c.parts.index(n) + 1, len(c.parts), got.count(n)))
        if any(n not in c.parts for n in got):
            say("reaches what is not a part of it" + (" on the same level" if c.same else ""))
        if [x[1] for x in ev if x[0] == "self"] != [me]:
            say("is not itself reached once")


def forms_of(mir, path, prefix):
    """(name, shape) for each variant"""
    sh = Shapes(mir, prefix)
    for k, n, fs in sh.fields(("adt", path, ())):
        for i, q in enumerate(itertools.product(*[sh.shapes(x) for x in fs])):
            yield "%s %d" % (n, i + 1), lambda b, q=q, k=k, n=n: b.adt(path, k, n, q)


def walk_table(mir):
    g = []
    for title, target, rep in (("expression", EXPR, X + "ExprRep"), ("pattern", PATN, PA + "PatternRep"), ("type", TY + "Type", TY + "Type"),
                               ("kind", "llrl::ast::kind::Kind", "llrl::ast::kind::Kind"), ("satisfaction", TY + "Satisfaction", TY + "Satisfaction")):
        for n, s in forms_of(mir, rep, target):
            g.append(walk_case(mir, "%s %s" % (title, n), target, "<%s as llrl::ast::Dfs>::dfs_" % target, s))
    for n, s in forms_of(mir, X + "ExprRep", EXPR):
        g.append(walk_case(mir, "expression on its level %s" % n, EXPR, "<%sExprDfsSameLevel<'a> as llrl::ast::Dfs>::dfs_" % X, s, True))
    g.append(("expressions of a module", roots_case(mir)))
    return g


# ---- the expressions of a module
def roots_case(mir):
    def build():
        c = Walk(mir, EXPR)
        c.f = None
        s, = Shapes(mir, EXPR).shapes(("adt", "llrl::ast::root::Root", ()))[-1:]
        r = c.a.box(s(c))
        c.root = ("llrl::ast::root::Root::expressions", [r], ())

        def rule(outs, say):
            import stdmodels
            for st, v in outs:
                call = type("C", (), dict(path="", d="", tr=None, targs=(), depth=0, args=[v], caller="", dty=("?",)))()
                its = stdmodels.items_of(c.e, st, v, call)
                if its is None:
                    raise Bad("a list of expressions that cannot be followed")
                for s2, xs in its:
                    got = [c.name(s2, x) for x in xs]
                    if len(c.parts) < 5:
                        raise Bad("%d kinds of places with expressions" % len(c.parts))
                    for n in c.parts:
                        if got.count(n) != 1:
                            say("expression %d of %d is listed %d times" % (c.parts.index(n) + 1, len(c.parts), got.count(n)))
                    if any(n not in c.parts for n in got):
                        say("lists what is no expression of the module")
        return c, rule
    return build


# ---- the validator
class Val(covers.Step):
    def __init__(self, mir):
        super().__init__(mir)
        self.answer = {}
        self.kids = {}

    def hooks(self, e, st, c):
        f = self.answer.get(c.path) or self.answer.get(c.d)
        return f(self, st, c) if f else None

    def kid(self, n):
        return self.a.struct(PATN, id=self.a.nid(n), rep=("sym", "rep%d" % n, ("adt", PA + "PatternRep", ())))

    def node(self, rep, *f):
        return self.a.struct(PATN, id=self.a.nid(1), rep=self.a.enum(PA + "PatternRep", rep, *f))

    def me(self, fin=(), tags=()):
        return self.a.box(self.a.struct(VAL + "Context", module_set=("sym", "set", ("?",)), type_finite_cons=("map", None, tuple(fin)), value_con_tags=("map", None, tuple(tags))))

    def nof(self, st, v):
        return idnum(fields(self.mir, self.e.res(st, self.e.through(st, v)))["id"])[1]

    def h_simplify(self, st, c):
        n = self.nof(st, c.args[1])
        s = st.fork()
        s.emit("simplify", n)
        return [(s, ("sym", "s%d" % n, PATTY))]

    def h_tag(self, st, c):
        v = self.e.snap(st, c.args[1])
        s = st.fork()
        s.emit("tag", v)
        return [(s, ("sym", "tag:%s%d" % (v[3], idnum(v[4][0])[1]), ("adt", TAG, ())))]

    def use(self, kind, n):
        return self.a.enum("llrl::ast::Use", "Resolved", self.a.enum(VCON, kind, self.a.nid(n)), NONE)


CTX = VAL + "Context::<'a, M>::"


class Validate:
    def __init__(self, mir):
        self.mir = mir

    def simple(self, make, want):
        """one form of pattern: what it is taken for"""
        def build():
            c = Val(self.mir)
            c.answer = {CTX + "simplify_pattern": Val.h_simplify, CTX + "tag_of": Val.h_tag}
            c.root = (CTX + "simplify_pattern", [c.me(), c.a.box(make(c))], ())

            def rule(outs, say):
                for st, v in outs:
                    got = self.shape(c, st, v)
                    if got != want:
                        say("is taken for %s instead of %s" % (got, want))
            return c, rule
        return build

    def shape(self, c, st, v):
        v = c.e.res(st, c.e.through(st, v))
        if v[0] == "sym":
            return v[1]
        if v[3] == "Wildcard":
            return "_"
        t = c.e.res(st, c.e.through(st, v[4][0]))
        tag = t[1] if t[0] == "sym" else ("const", c.e.snap(st, t[4][0]))
        return (tag,) + tuple(self.shape(c, st, x) for x in c.arr(st, v[4][1]))

    def patterns(self):
        a = self
        P = PA
        var = lambda x: lambda c: c.node("Var", c.a.box(c.a.struct(P + "PatternVar", id=c.a.nid(5), as_pat=c.a.opt(x and c.kid(x)))))
        dec = lambda k, n: lambda c: c.node("Decon", c.a.box(c.a.struct(P + "PatternDecon", use_=c.use(k, 50), fields=c.a.opt(None if n is None else ("arr", tuple(c.kid(10 + i) for i in range(n)))))))
        g = [("variable", a.simple(var(None), "_")), ("variable with a pattern", a.simple(var(10), "s10")), ("wildcard", a.simple(lambda c: c.node("Wildcard"), "_"))]
        for k in ("Data", "Builtin"):
            for n in (None, 0, 1, 2, 3):
                g.append(("%s constructor, fields %s" % (k, n), a.simple(dec(k, n), ("tag:%s50" % k,) + tuple("s%d" % (10 + i) for i in range(n or 0)))))
        for k, f in (("Integer", (B(True), I(5, "u64"))), ("FPNumber", (("sym", "fp", ("?",)),)), ("String", (("sym", "str", ("?",)),)), ("Char", (I(65, "char"),))):
            g.append(("literal %s" % k, a.simple(lambda c, k=k, f=f: c.node("Const", c.a.enum("llrl::ast::consts::Const", k, *f)), (("const", ("adt", "llrl::ast::consts::Const", self.const_no(k), k, f)),))))
        return g

    def const_no(self, k):
        return [v["n"] for v in self.mir.adts["llrl::ast::consts::Const"]["variants"]].index(k)

    # what a constructor is known by
    def tag(self, kind, arities, which, known):
        """known: what was asked before (nothing, the constructors of the type, the constructor itself)"""
        def build():
            c = Val(self.mir)
            a = c.a
            D = "llrl::ast::decl::"
            fin = [a.struct(FIN, use_=a.enum(VCON, kind, a.nid(50 + i)), arity=I(n or 0, "usize")) for i, n in enumerate(arities)]
            all_ = a.box(("arr", tuple(fin)))
            want = a.enum(TAG, "Finite", fin[which], all_)
            vc = {}
            for i, n in enumerate(arities):
                f = dict(id=a.nid(50 + i), type_con=a.nid(40), fields=a.opt(None if n is None else ("arr", tuple(a.struct(D + "ValueConField", id=a.nid(80 + k), ty=("sym", "ty%d" % k, ("?",))) for k in range(n)))))
                if kind == "Builtin":
                    f["builtin_name"] = ("sym", "bn", ("?",))
                vc[50 + i] = a.struct(D + kind + "ValueCon", **f)
            f = dict(id=a.nid(40), ty_params=("arr", ()), value_cons=("arr", tuple(a.nid(n) for n in vc)))
            f.update(dict(repr=("sym", "repr", ("?",))) if kind == "Data" else dict(builtin_name=("sym", "bn", ("?",))))
            tc = a.box(a.struct(D + kind + "TypeCon", **f))
            rf = {x["n"]: ("map", None, ()) for x in self.mir.adts["llrl::ast::root::Root"]["variants"][0]["fields"]}
            rf["id"], rf["init_expressions"] = a.nid(0), ("arr", ())
            rf[kind.lower() + "_value_cons"] = ("map", None, tuple((a.nid(n), v) for n, v in vc.items()))
            root = a.box(a.struct("llrl::ast::root::Root", **rf))
            dt = a.struct(D + ("DataType" if kind == "Data" else "BuiltinType"), con=tc, root=root)
            cells = {n: a.box(v) for n, v in vc.items()}

            def ast(self_, st, call):
                n = idnum(self_.e.res(st, call.args[1]))[1]
                what = "TypeCon" if n == 40 else "ValueCon" if n in vc else None
                if what is None:
                    raise Bad("asks for %d" % n)
                return [(st, some(dt if n == 40 else cells[n]))]
            c.answer = {"llrl::module::set::ModuleSet::ast": ast}
            con = a.enum(VCON, kind, a.nid(50 + which))
            tcon = a.enum(TY + "TypeCon", kind, a.nid(40))
            c.root = (CTX + "tag_of", [c.me([(tcon, all_)] if known else (), [(con, want)] if known == 2 else ()), con], ())

            def rule(outs, say):
                for st, v in outs:
                    v = c.e.res(st, v)
                    got = self.tagof(c, st, v)
                    if got != ((50 + which, arities[which] or 0), tuple((50 + i, n or 0) for i, n in enumerate(arities))):
                        say("is known as %s" % (got,))
            return c, rule
        return build

    def tagof(self, c, st, v):
        con = lambda x: (lambda f: (idnum(c.e.res(st, c.e.res(st, f["use_"])[4][0]))[1], c.e.res(st, f["arity"])[1]))(fields(self.mir, c.e.res(st, c.e.through(st, x))))
        if v[3] != "Finite":
            return v[3]
        return con(v[4][0]), tuple(con(x) for x in c.arr(st, v[4][1]))

    def tags(self):
        g = []
        for kind in ("Data", "Builtin"):
            for ar in ((None,), (0,), (2,), (None, 1), (None, 1, 2)):
                for w in range(len(ar)):
                    for known in (0, 1, 2):
                        g.append(("%s constructor %d of %s, %s" % (kind, w + 1, ar, ("first", "type known", "known")[known]), self.tag(kind, ar, w, known)))
        return g

    # a match expression
    def match(self, n):
        def build():
            c = Val(self.mir)

            def chk(self_, st, call):
                rows = [self_.readrow(st, r) for r in self_.arr(st, call.args[0])]
                out = []
                s = st.fork()
                s.emit("check", tuple(rows), "Ok")
                out.append((s, ok(UNIT)))
                s = st.fork()
                s.emit("check", tuple(rows), "Useless")
                out.append((s, err(self_.a.enum(PM + "Error", "Useless", self_.a.struct(ROW, pats=("arr", (("sym", "dead", PATTY),)))))))
                s = st.fork()
                s.emit("check", tuple(rows), "NonExhaustive")
                out.append((s, err(self_.a.enum(PM + "Error", "NonExhaustive", self_.matrix(None, [(("p", "miss0"),), (("p", "miss1"),)])))))
                return out
            c.answer = {CTX + "simplify_pattern": Val.h_simplify, PM + "check": chk}
            body = lambda k: c.a.struct(EXPR, id=c.a.nid(k), rep=("sym", "rep", ("adt", X + "ExprRep", ())))
            m = c.a.struct(X + "ExprMatch", target=body(90), clauses=("arr", tuple(("tup", (c.kid(10 + i), body(30 + i))) for i in range(n))))
            c.root = (CTX + "validate_match", [c.me(), c.a.box(m)], ())

            def rule(outs, say):
                want = tuple((("p", "s%d" % (10 + i)),) for i in range(n))
                for st, v in outs:
                    v = c.e.res(st, v)
                    asked = events(st, "check")
                    if not asked and n == 0 and v[3] == "Err":
                        continue
                    if len(asked) != 1 or asked[0][0] != want:
                        say("the clauses are not what is checked")
                        continue
                    what = asked[0][1]
                    if (v[3] == "Ok") != (what == "Ok"):
                        say("%s although the check says %s" % (v[3], what))
                        continue
                    if v[3] == "Err":
                        x = c.e.res(st, c.e.through(st, v[4][0]))
                        if x[0] != "adt":
                            raise Bad("an error that cannot be followed")
                        if what == "Useless":
                            good = x[3] == "UselessPattern" and c.read(st, x[4][0]) == ("p", "dead")
                        else:
                            good = x[3] == "NonExhaustivePattern" and [c.read(st, y) for y in c.arr(st, x[4][0])] == [("p", "miss0"), ("p", "miss1")]
                        if not good:
                            say("what is reported is not what was found (%s)" % what)
            return c, rule
        return build

    def run(self):
        """every match expression of the module"""
        def build():
            c = Val(self.mir)
            a = c.a
            f = {x["n"]: ("map", None, ()) for x in self.mir.adts["llrl::ast::root::Root"]["variants"][0]["fields"]}
            f["id"] = a.nid(0)
            ex = lambda k, rep=None: a.struct(EXPR, id=a.nid(k), rep=rep or ("sym", "rep", ("adt", X + "ExprRep", ())))
            f["init_expressions"] = ("arr", tuple(a.enum(X + "InitExpr", "Eval", ex(20 + i)) for i in range(2)))
            mf = {x["n"]: ("sym", "m." + x["n"], ("?",)) for x in self.mir.adts["llrl::module::Module"]["variants"][0]["fields"]}
            mf["ast_root"] = a.struct("llrl::ast::root::Root", **f)
            mod = a.box(a.struct("llrl::module::Module", **mf))
            match = lambda k: a.box(ex(k, a.enum(X + "ExprRep", "Match", a.box(a.struct(X + "ExprMatch", target=ex(k + 100), clauses=("arr", ()))))))
            inner = {20: [match(1), a.box(ex(2, a.enum(X + "ExprRep", "Capture", ("sym", "u", ("?",))))), match(3)], 21: [match(4)]}
            seen = {1: 101, 3: 103, 4: 104}

            def dfs(self_, st, call):
                n = self_.nof(st, call.args[0])
                live, out = [st], []
                for x in inner[n]:
                    nxt = []
                    for s in live:
                        for s2, r in self_.e.call_value(s, call.args[1], [x], depth=call.depth):
                            r = self_.e.res(s2, r)
                            (nxt if r[3] == "Ok" else out).append(s2 if r[3] == "Ok" else (s2, r))
                    live = nxt
                return out + [(s, ok(UNIT)) for s in live]

            def val(self_, st, call):
                f = fields(self.mir, self_.e.res(st, self_.e.through(st, call.args[1])))
                n = idnum(fields(self.mir, self_.e.res(st, f["target"]))["id"])[1]
                out = []
                for r in (ok(UNIT), err(a.box(("sym", "error", ("?",))))):
                    s = st.fork()
                    s.emit("match", n, r[3])
                    out.append((s, r))
                return out
            c.answer = {"<llrl::ast::expr::Expr as llrl::ast::Dfs>::dfs_": dfs, "llrl::ast::Dfs::dfs_": dfs, "llrl::ast::Dfs::dfs": dfs, CTX + "validate_match": val}
            c.root = (VAL + "run", [mod, a.box(("sym", "external", ("?",)))], ())

            def rule(outs, say):
                for st, v in outs:
                    v = c.e.res(st, v)
                    ev = events(st, "match")
                    if any(r == "Err" for _, r in ev):
                        if v[3] != "Err":
                            say("accepted, although a match expression was rejected")
                        continue
                    if v[3] == "Err":
                        say("rejected, although no match expression was")
                    miss = [n for n in seen.values() if n not in [x for x, _ in ev]]
                    if miss:
                        say("%d of the match expressions are not looked at" % len(miss))
            return c, rule
        return build


def events(st, kind):
    return [x[1:] for x in st.events if x[0] == kind]


def validate_table(mir):
    v = Validate(mir)
    g = [("pattern: " + n, b) for n, b in v.patterns()] + v.tags()
    g += [("match of %d clauses" % n, v.match(n)) for n in range(4)]
    g.append(("match expressions of a module", v.run()))
    return g


def run_case(name, build):
    return covers.run_case(name, build)
