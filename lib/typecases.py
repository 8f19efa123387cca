"""The typing rules, as tables: for each form what has to be inferred, required, recorded and answered."""
import reserved
from typerules import *

IE = CX + "infer_expr"
IP = CX + "infer_pattern"


def known(mir):
    """what the language reserves, by name: from the table of their identifiers"""
    t = {}
    for name, (kind, (m, i)) in reserved.table(mir)[0].items():
        t[name] = ("con", "%s#%d.%d" % (kind[:-7], m, i)) if kind.endswith("TypeCon") else (m, i)
    t["unit"] = t["Tuple.0"]
    return t


def fun(*xs):
    return ("ap", ("con", "Builtin#0.%d" % (len(xs) - 1)), tuple(xs))


class Forms:
    """builders of the cases; each returns (path, args, rule)"""

    def __init__(self, mir):
        self.mir = mir
        self.K = known(mir)

    def start(self, lv=2, ret=True, gens=()):
        c = Case(self.mir)
        c.clip = lv
        c.sc = c.scope("s", lv, gens)
        c.es_ = c.es(c.sc, c.uty("R") if ret else None)
        c.ret = ("k", "R") if ret else None
        return c

    def ex(self, c, node, rule):
        cx = c.context()
        return c, IE, [cx, c.es_, c.a.box(node)], rule

    def pt(self, c, node, rule):
        cx = c.context()
        return c, IP, [cx, c.sc, c.a.box(node)], rule

    def kid(self, c, n, **env):
        return ("s", c.ret, env)

    # -------- uses
    VALUES = {"Function": 1, "CFunction": 0, "BuiltinOp": 1, "ClassMethod": 1, "Parameter": 0, "LocalVar": 0, "LocalFun": 1, "PatternVar": 0}

    def used(self, c, kind, n, at, generic):
        if self.VALUES.get(kind, 1):
            if generic:
                c.give(kind, n, [30, 31], [c.constraint("c", 40, 45, [c.uty("T0")]), c.constraint("c", 41, 46, [c.uty("T2"), c.uty("T3")])], c.uty("T1"))
                m = (((1, 30), V("u" + at, None)), ((1, 31), V("v" + at, None)))
                m = tuple((g, ("v", (at, i, g), c.clip)) for i, (g, _) in enumerate(m))
                s = lambda t: ("subst", m, ("k", t))
                puts = [((1, 40), (1, 45), (s("T0"),)), ((1, 41), (1, 46), (s("T2"), s("T3")))]
                return s("T1"), (tuple(x for _, x in m), tuple(("put", "s", p) for p in puts)), puts
            c.give(kind, n, [], [], c.uty("T1"))
        else:
            c.give(kind, n, c.uty("T1"))
        return ("k", "T1"), ((), ()), []

    def e_use(self, kind, generic=True):
        c = self.start()
        t, inst, puts = self.used(c, kind, 50, "Expr#1", generic)
        x = c.node(1, "Use", c.use(c.value(kind, 50)))
        return self.ex(c, x, Rule(result=t, types={"Expr#1": t}, insts={"Expr#1": inst}, puts={"s": puts}))

    def e_con(self, kind, generic=True):
        c = self.start()
        t, inst, puts = self.used(c, kind + "ValueCon", 50, "Expr#1", generic)
        x = c.node(1, "Con", c.a.enum(X + "ValueCon", kind, c.a.nid(50)))
        return self.ex(c, x, Rule(result=t, types={"Expr#1": t}, insts={"Expr#1": inst}, puts={"s": puts}))

    # -------- constants
    def const(self, c, what):
        a = c.a
        return a.enum("llrl::ast::consts::Const", what, *{"Integer": (B(False), I(5, "u64")), "FPNumber": (("sym", "fp", ("adt", "ordered_float::OrderedFloat", ())),),
                                     "String": (("sym", "str", ("adt", "std::string::String", ())),), "Char": (I(65, "char"),),
                                     "SyntaxSexp": (("sym", "sexp", ("adt", "llrl::sexp::Sexp", ())),)}[what])

    def const_rule(self, what, at):
        K = self.K
        if what in ("Integer", "FPNumber"):
            v = V("num")
            cls, cid = ("Number", "#Number") if what == "Integer" else ("FPNumber", "#FPNumber")
            p = (K[cid], K[cls], (v,))
            return Rule(result=v, types={at: v}, insts={at: ((), (("put", "s", p),))}, puts={"s": [p]})
        t = {"String": K["String"], "Char": K["Char"], "SyntaxSexp": ap(K["Syntax"], K["Sexp"])}[what]
        return Rule(result=t, types={at: t})

    def e_const(self, what):
        c = self.start()
        return self.ex(c, c.node(1, "Const", self.const(c, what)), self.const_rule(what, "Expr#1"))

    def p_const(self, what):
        c = self.start()
        return self.pt(c, c.pnode(1, "Const", self.const(c, what)), self.const_rule(what, "Pattern#1"))

    # -------- forms
    def kids(self, c, *ns, **env):
        return {("e", n): self.kid(c, n, **env) for n in ns}

    def e_app(self, n):
        c = self.start()
        x = c.node(1, "App", c.a.box(c.a.struct(X + "ExprApply", callee=c.expr(2), args=("arr", tuple(c.expr(3 + i) for i in range(n))))))
        r = V("r")
        return self.ex(c, x, Rule(eqs=[(V("e2"), fun(*[V("e%d" % (3 + i)) for i in range(n)], r))], result=r, children=self.kids(c, *range(2, 3 + n))))

    def e_capture(self):
        c = self.start()
        x = c.node(1, "Capture", ("sym", "use", self.field_type(X + "ExprRep", "Capture")))
        return self.ex(c, x, Rule(result=ap(self.K["Syntax"], self.K["Sexp"])))

    def field_type(self, path, var):
        for v in self.mir.adts[path]["variants"]:
            if v["n"] == var:
                return ("adt", var, ())
        raise Bad("no %s::%s" % (path, var))

    def e_annotate(self, gens):
        c = self.start_gens(gens)
        x = c.node(1, "Annotate", c.a.box(c.a.struct(X + "ExprAnnotate", body=c.expr(2), ann=c.ann(c.asty("A")))))
        t = self.seen(c, ("k", "import:A"))
        return self.ex(c, x, Rule(eqs=[(V("e2"), t)], result=V("e2"), children=self.kids(c, 2)))

    def start_gens(self, gens, **kw):
        """in the scope of a type parameter, or not"""
        c = self.start(**kw)
        if gens:
            a = c.a
            c.sc = c.scope("s", c.clip, [(33, a.enum(U + "types::Type", "Gen", a.nid(33), c.lvl(1)))])
            c.es_ = c.es(c.sc, c.uty("R") if c.ret else None)
        c.gens = bool(gens)
        return c

    def seen(self, c, t):
        return ("subst", (((1, 33), ("gen", (1, 33), 1)),), t) if c.gens else t

    def e_seq(self, n):
        c = self.start()
        x = c.node(1, "Seq", c.a.box(c.a.struct(X + "ExprSeq", stmts=("arr", tuple(c.expr(3 + i) for i in range(n))), ret=c.expr(2))))
        return self.ex(c, x, Rule(result=V("e2"), children=self.kids(c, *range(2, 3 + n))))

    def e_if(self):
        c = self.start()
        x = c.node(1, "If", c.a.box(c.a.struct(X + "ExprIf", cond=c.expr(2), then=c.expr(3), else_=c.expr(4))))
        return self.ex(c, x, Rule(eqs=[(V("e2"), self.K["Bool"]), (V("e3"), V("e4"))], result=V("e3"), children=self.kids(c, 2, 3, 4)))

    def e_while(self):
        c = self.start()
        x = c.node(1, "While", c.a.box(c.a.struct(X + "ExprWhile", cond=c.expr(2), body=c.expr(3))))
        return self.ex(c, x, Rule(eqs=[(V("e2"), self.K["Bool"])], result=self.K["unit"], children=self.kids(c, 2, 3)))

    def e_match(self, n):
        c = self.start()
        x = c.node(1, "Match", c.a.box(c.a.struct(X + "ExprMatch", target=c.expr(2), clauses=("arr", tuple(
            ("tup", (c.pat(10 + i), c.expr(20 + i))) for i in range(n))))))
        r = V("r")
        eqs = [(V("e2"), V("p%d" % (10 + i))) for i in range(n)] + [(r, V("e%d" % (20 + i))) for i in range(n)]
        kids = self.kids(c, 2, *range(20, 20 + n))
        kids.update({("p", 10 + i): ("s", None, {}) for i in range(n)})
        return self.ex(c, x, Rule(eqs=eqs, result=r, children=kids))

    def e_return(self, val, ret):
        c = self.start(ret=ret)
        x = c.node(1, "Return", c.a.box(c.a.opt(c.expr(2) if val else None)))
        if not ret:
            return self.ex(c, x, Rule(reject=True))
        return self.ex(c, x, Rule(eqs=[(("k", "R"), V("e2") if val else self.K["unit"])], result=V("r"), children=self.kids(c, 2) if val else {}))

    # -------- patterns
    def p_var(self, as_):
        c = self.start()
        x = c.pnode(1, "Var", c.a.box(c.a.struct(PA + "PatternVar", id=c.a.nid(5), as_pat=c.a.opt(c.pat(2) if as_ else None))))
        v = V("v")
        return self.pt(c, x, Rule(eqs=[(v, V("p2"))] if as_ else [], result=v, types={"PatternVar#5": v}, children={("p", 2): ("s", None, {})} if as_ else {}))

    def p_wild(self):
        c = self.start()
        v = V("v")
        return self.pt(c, c.pnode(1, "Wildcard"), Rule(result=v, types={"Pattern#1": v}))

    def p_decon(self, kind, n, arity, generic=True):
        """n: fields given, arity: fields of the constructor; None: no field list"""
        c = self.start()
        t, inst, puts = self.used(c, kind + "ValueCon", 50, "Pattern#1", generic)
        c.arities = {50: arity}
        con = c.a.enum(X + "ValueCon", kind, c.a.nid(50))
        x = c.pnode(1, "Decon", c.a.box(c.a.struct(PA + "PatternDecon", use_=c.use(con), fields=c.a.opt(None if n is None else ("arr", tuple(c.pat(10 + i) for i in range(n)))))))
        if n != arity:
            return self.pt(c, x, Rule(reject=True))
        kids = {("p", 10 + i): ("s", None, {}) for i in range(n or 0)}
        r = dict(types={"Pattern#1": t}, insts={"Pattern#1": inst}, puts={"s": puts}, children=kids)
        if n is None:
            return self.pt(c, x, Rule(result=t, **r))
        v = V("r")
        return self.pt(c, x, Rule(eqs=[(t, fun(*[V("p%d" % (10 + i)) for i in range(n)], v))], result=v, **r))


def table(mir):
    f = Forms(mir)
    g = []
    for k in f.VALUES:
        g.append(("use of a %s" % k, lambda k=k: f.e_use(k)))
    g.append(("use of a Function that is not generic", lambda: f.e_use("Function", False)))
    for k in ("Data", "Builtin"):
        g.append(("use of a %s constructor" % k, lambda k=k: f.e_con(k)))
    for w in ("Integer", "FPNumber", "String", "Char", "SyntaxSexp"):
        g.append(("constant %s" % w, lambda w=w: f.e_const(w)))
        g.append(("constant pattern %s" % w, lambda w=w: f.p_const(w)))
    for n in (0, 1, 2):
        g.append(("application to %d arguments" % n, lambda n=n: f.e_app(n)))
    g.append(("capture", f.e_capture))
    for n in (0, 1):
        g.append(("annotation%s" % (" under a type parameter" if n else ""), lambda n=n: f.e_annotate(n)))
    for n in (0, 1, 2):
        g.append(("sequence of %d" % (n + 1), lambda n=n: f.e_seq(n)))
    g.append(("if", f.e_if))
    g.append(("while", f.e_while))
    for n in (0, 1, 2):
        g.append(("match of %d clauses" % n, lambda n=n: f.e_match(n)))
    for v in (0, 1):
        for r in (0, 1):
            g.append(("return%s %s a function" % (" of a value" if v else "", "in" if r else "outside"), lambda v=v, r=r: f.e_return(v, r)))
    g.append(("variable pattern", lambda: f.p_var(False)))
    g.append(("as pattern", lambda: f.p_var(True)))
    g.append(("wildcard", f.p_wild))
    for k in ("Data", "Builtin"):
        for n, ar in ((None, None), (0, 0), (1, 1), (2, 2), (1, 2), (2, 1), (None, 1), (1, None), (None, 0), (0, None)):
            g.append(("%s pattern with %s of %s fields" % (k, n, ar), lambda k=k, n=n, ar=ar: f.p_decon(k, n, ar)))
    return g


def run_case(name, build):
    c, path, args, rule = build()
    outs = c.e.call_fn(c.st, path, args, c.tself)
    bad = rule(c, outs, name) if callable(rule) else compare(c, outs, rule, name)
    bad = sorted(set(bad))
    for x in c.e.panics[:3]:
        bad.append("%s: can panic: %s" % (name, str(x)[:160]))
    lost(c.e)
    for x in c.e.cuts[:3]:
        raise Bad("%s: %s" % (name, str(x)[:200]))
    return bad, len(outs), set(c.e.analysed)


# ---------------------------------------------------------------- declarations

class Decls(Forms):
    """functions, classes, instances, macros, initialisers: entered through `run`"""

    GENS, CID = (80, 81), 82

    def open(self, lv=0):
        c = Case(self.mir)
        c.clip = lv
        c.final = (self.GENS, (c.constraint("q", self.CID, 48, [c.uty("Q0")]),))
        a = c.a
        # class 45 of one parameter has the superclasses 46 and 48, which have none
        c.maps["class_cons"][a.nid(45)] = a.struct(UN + "ClassCon", ty_params=("arr", (a.nid(38),)), superclasses=("arr", (c.constraint("s", 47, 46, [c.uty("T9")]), c.constraint("s", 49, 48, [c.uty("T8")]))))
        for n in (46, 48):
            c.maps["class_cons"][a.nid(n)] = a.struct(UN + "ClassCon", ty_params=("arr", (a.nid(39),)), superclasses=("arr", ()))
        return c

    def assume(self, cid, cls, t):
        """a constraint on class 45, 46 or 48, with what follows from it"""
        r = [((1, cls), (1, cid), (), (t,))]
        if cls == 45:
            r.append(((1, 46), (1, cid), ((1, 47),), (("subst", (((1, 38), t),), ("k", "T9")),)))
            r.append(((1, 48), (1, cid), ((1, 49),), (("subst", (((1, 38), t),), ("k", "T8")),)))
        return r

    def quantified(self, body):
        return ("scheme", tuple((1, g) for g in self.GENS), (((1, self.CID), (1, 48), (("k", "Q0"),)),), body)

    def instantiated(self):
        return tuple(("gen", (1, g), 0) for g in self.GENS), (("premise", (1, self.CID), ()),)

    def go(self, c, rule, **decls):
        root = c.root(**decls)
        cx = c.context()
        return c, CX + "run", [cx, root], rule

    def function(self, c, n, params, ann, body):
        a = c.a
        c.kinds[n] = "Function"
        return a.struct(DE + "Function", id=a.nid(n), transparent=B(False), params=a.opt(None if params is None else c.params(*params)), ann=a.opt(ann), body=body)

    def applied(self, params, whole, at, rule):
        """type of a body, for a function of this type"""
        if params is None:
            return whole
        r = V("ret" + at)
        ps = [V("par%d" % p) for p in params]
        rule.eqs.append((fun(*ps, r), whole))
        rule.types.update({"Parameter#%d" % p: t for p, t in zip(params, ps)})
        rule.asks["default"] = rule.asks.get("default", []) + [(t, self.K["unit"]) for t in ps]
        return r

    def impl(self, params):
        c = self.open()
        c.quant = [(7, 9)]
        f = self.function(c, 50, params, None, c.using(10, (11, "Function", 50)))
        r = Rule(finals=[])
        F = V("F")
        body = self.applied(params, F, "", r)
        r.eqs.append((body, V("e10")))
        env = {**r.types, "Function#50": ("scheme", (), (), F)}
        r.children = {("e", 10): ("inner@0", body, env)}
        r.assume = {("e", 10): ((), ())}
        r.finals = [(0, (7, 9), None, (), ["e10"], len(r.eqs))]
        r.schemes = {"Function#50": self.quantified(F)}
        r.insts = {"Expr#11": self.instantiated()}
        r.asks["vars"] = [(F, 0)]
        r.asks["default"] = r.asks.get("default", []) + [(F, self.K["unit"]), (("k", "Q0"), self.K["unit"])]
        return self.go(c, r, functions=[f])

    def mutual(self, flip):
        c = self.open()
        c.quant = [(7, 9), (9, 11)]
        fs = [self.function(c, 50, [60], None, c.using(10, (11, "Function", 51), (12, "Function", 50))),
              self.function(c, 51, None, None, c.using(20, (21, "Function", 50), (22, "Function", 53)))]
        r = Rule()
        F, G = V("F"), V("G")
        b = self.applied([60], F, "", r)
        r.eqs += [(b, V("e10")), (G, V("e20"))]
        env = {**r.types, "Function#50": ("scheme", (), (), F), "Function#51": ("scheme", (), (), G)}
        r.children = {("e", 10): ("inner@0", b, env), ("e", 20): ("inner@0", G, env)}
        r.assume = {k: ((), ()) for k in r.children}
        r.finals = [(0, (9,), None, (), ["e10", "e20"], len(r.eqs))]
        r.schemes = {"Function#50": self.quantified(F), "Function#51": self.quantified(G)}
        r.insts = {"Expr#%d" % n: self.instantiated() for n in (11, 12, 21)}
        r.asks["vars"] = [(F, 0), (G, 0)]
        return self.go(c, r, functions=fs[::-1] if flip else fs)

    def chain(self, flip):
        """a function that uses another, which does not use it, and one with a given type"""
        c = self.open()
        c.quant = [(7, 9), (7, 9)]
        given = c.ann(c.ascheme([30], [], c.asty("A1")))
        fs = [self.function(c, 50, None, None, c.using(10, (11, "Function", 51), (12, "Function", 52))),
              self.function(c, 51, None, None, c.using(20, (21, "Function", 52))),
              self.function(c, 52, None, given, c.using(25, (26, "Function", 50)))]
        r = Rule()
        F, G = V("F"), V("G")
        A1 = ("k", "import:A1")
        H = ("scheme", ((1, 30),), (), A1)
        r.eqs = [(G, V("e20")), (F, V("e10")), (A1, V("e25"))]
        r.children = {("e", 20): ("inner@0", G, {"Function#51": ("scheme", (), (), G)}),
                      ("e", 10): ("inner@0", F, {"Function#50": ("scheme", (), (), F), "Function#51": self.quantified(G)}),
                      ("e", 25): ("inner@0", A1, {"Function#50": self.quantified(F), "Function#51": self.quantified(G)})}
        r.assume = {k: ((), ()) for k in r.children}
        r.finals = [(0, (7, 9), None, (), ["e20"], 1), (0, (7, 9), None, (), ["e20", "e10"], 2), (0, (), None, (), ["e20", "e10", "e25"], 3)]
        r.schemes = {"Function#50": self.quantified(F), "Function#51": self.quantified(G), "Function#52": H}
        r.asks["vars"] = [(G, 0), (F, 0)]
        return self.go(c, r, functions=fs[::-1] if flip else fs)

    def expl(self, params):
        c = self.open()
        f = self.function(c, 50, params, c.ann(c.ascheme([30, 31], [c.acons(40, 45, c.asty("A0"))], c.asty("A1"))), c.using(10, (11, "Function", 50)))
        r = Rule()
        A0, A1 = ("k", "import:A0"), ("k", "import:A1")
        sch = ("scheme", ((1, 30), (1, 31)), (((1, 40), (1, 45), (A0,)),), A1)
        body = self.applied(params, A1, "", r)
        r.eqs.append((body, V("e10")))
        prem = self.assume(40, 45, A0)
        r.children = {("e", 10): ("inner@0", body, {**r.types, "Function#50": sch})}
        r.assume = {("e", 10): (prem, ())}
        r.finals = [(0, (), None, prem, ["e10"], len(r.eqs))]
        r.schemes = {"Function#50": sch}
        return self.go(c, r, functions=[f])

    def klass(self, c, methods):
        a = c.a
        return a.struct(DE + "ClassCon", id=a.nid(45), constraint_id=a.nid(37), ty_params=("arr", (c.aparam(38),)), superclasses=("arr", (c.acons(47, 46, c.asty("S9")),)),
                        methods=("arr", tuple(a.nid(m) for m in methods)), is_sealed=B(False))

    def method(self, c, n, params, body):
        a = c.a
        return a.struct(DE + "ClassMethod", id=a.nid(n), transparent=B(False), ann=c.ann(c.ascheme([30], [c.acons(40, 48, c.asty("A0"))], c.asty("A1"))),
                        params=a.opt(None if params is None else c.params(*params)), default_body=a.opt(body), class_con=a.nid(45))

    EXT = ("scheme", ((1, 30), (1, 38)), (((1, 40), (1, 48), (("k", "import:A0"),)), ((1, 37), (1, 45), (("gen", (1, 38), 0),))), ("k", "import:A1"))

    def cls(self, params, default):
        c = self.open(1)
        r = Rule()
        s = lambda t: ("subst", (((1, 30), ("gen", (1, 30), 1)),), ("k", "import:" + t))
        whole = s("A1")
        body = self.applied(params, whole, "", r)
        p0 = self.assume(37, 45, ("gen", (1, 38), 0))
        p1 = p0 + self.assume(40, 48, s("A0"))
        if default:
            r.eqs.append((body, V("e10")))
            r.children = {("e", 10): ("inner@1", body, dict(r.types))}
            r.assume = {("e", 10): (p1, [((1, 30), ("gen", (1, 30), 1))])}
        need = ["e10"] if default else []
        r.finals = [(1, (), "inner@0", p1, need, len(r.eqs)), (0, (), None, p0, need, len(r.eqs))]
        r.schemes = {"ClassMethod#55": self.EXT}
        return self.go(c, r, class_cons=[self.klass(c, [55])], class_methods=[self.method(c, 55, params, c.expr(10) if default else None)])

    def instance(self, params, ann):
        c = self.open(1)
        a = c.a
        r = Rule()
        B0, B1 = ("k", "import:B0"), ("k", "import:B1")
        inst = a.struct(DE + "InstanceCon", id=a.nid(65), ty_params=("arr", (c.aparam(34),)), s_params=("arr", (c.acons(42, 48, c.asty("B0")),)),
                        target=c.acons(43, 45, c.asty("B1")), methods=("arr", (a.nid(66),)))
        m = a.struct(DE + "InstanceMethod", id=a.nid(66), transparent=B(False), params=a.opt(None if params is None else c.params(*params)),
                     ann=a.opt(c.ann(c.ascheme([35], [c.acons(44, 48, c.asty("C0"))], c.asty("C1"))) if ann else None), body=c.expr(10),
                     class_method=c.use(a.nid(55)), instance_con=a.nid(65))
        of = lambda t: ("subst", (((1, 38), B1),), ("k", "import:" + t))
        if ann:
            g, cid, s = 35, 44, (lambda t: ("subst", (((1, 35), ("gen", (1, 35), 1)),), ("k", "import:C" + t[1])))
            mp = (((1, 35), ("gen", (1, 30), 0)),)
            r.asks["equal"] = [(mp, ("k", "import:C1"), of("A1")), (mp, ("k", "import:C0"), of("A0"))]
        else:
            g, cid, s = 30, 40, (lambda t: ("subst", (((1, 30), ("gen", (1, 30), 1)),), of(t)))
        body = self.applied(params, s("A1"), "", r)
        r.eqs.append((body, V("e10")))
        p0 = self.assume(42, 48, B0)
        p1 = p0 + self.assume(cid, 48, s("A0"))
        r.children = {("e", 10): ("inner@1", body, dict(r.types))}
        r.assume = {("e", 10): (p1, [((1, g), ("gen", (1, g), 1))])}
        p2 = self.assume(37, 45, ("gen", (1, 38), 0))
        s30 = lambda t: ("subst", (((1, 30), ("gen", (1, 30), 1)),), ("k", "import:" + t))
        r.finals = [(1, (), "inner@0", p1, ["e10"], len(r.eqs)), (0, (), None, p0, ["e10"], len(r.eqs)),
                    (1, (), "inner@0", p2 + self.assume(40, 48, s30("A0")), [], 0), (0, (), None, p2, [], 0)]
        r.schemes = {"ClassMethod#55": self.EXT, "InstanceMethod#66": ("scheme", ((1, g),), (((1, cid), (1, 48), (s("A0"),)),), s("A1"))}
        r.insts = {"InstanceCon#65": ((), (("premise", (1, 947), ()), ("premise", (1, 949), ())))}
        r.asks["satisfy"] = [(((1, cid), (1, cls), (("subst", (((1, 38), B1),), ("k", t)),)), p0, I(0, "i32")) for cid, cls, t in ((47, 46, "T9"), (49, 48, "T8"))]
        r.asks["overlap"] = [((1, 45),)]
        return self.go(c, r, class_cons=[self.klass(c, [55])], class_methods=[self.method(c, 55, None, None)], instance_cons=[inst], instance_methods=[m])

    def macro(self):
        c = self.open()
        a = c.a
        K = self.K
        src = ap(K["Syntax"], K["Sexp"])
        dest = ap(K["Result"], src, K["String"])
        m = a.struct(DE + "Macro", id=a.nid(85), param=a.struct(DE + "Parameter", id=a.nid(86)), body=c.expr(10))
        r = Rule(eqs=[(V("e10"), dest)], types={"Parameter#86": src}, children={("e", 10): ("inner@0", dest, {"Parameter#86": src})},
                 assume={("e", 10): ((), ())}, finals=[(0, (), None, (), ["e10"], 1)])
        return self.go(c, r, macros=[m])

    def inits(self):
        c = self.open()
        a = c.a
        ie = lambda k, *f: a.enum(X + "InitExpr", k, *f)
        l = [ie("Eval", c.expr(10)), ie("EnsureInitialized", ("adt", "llrl::ast::node_id::ModuleId", 0, "", (I(3, "u32"),))), ie("Eval", c.expr(11))]
        r = Rule(types={"Expr#10": V("e10"), "Expr#11": V("e11")}, children={("e", n): ("inner@0", None, {}) for n in (10, 11)},
                 assume={("e", n): ((), ()) for n in (10, 11)}, finals=[(0, (), None, (), ["e10"], 0), (0, (), None, (), ["e11"], 0)],
                 asks={"default": [(V("e10"), self.K["unit"]), (V("e11"), self.K["unit"])]})
        return self.go(c, r, init_expressions=l)

    def cyclic(self, n):
        """classes that are superclasses of each other, or one after the other"""
        c = self.open()
        a = c.a
        k = lambda i, sup: a.struct(DE + "ClassCon", id=a.nid(i), constraint_id=a.nid(i + 100), ty_params=("arr", ()), methods=("arr", ()), is_sealed=B(False),
                                    superclasses=("arr", tuple(c.acons(i + 200, x, c.asty("A0")) for x in sup)))
        cs = {"two": [k(45, [46]), k(46, [45])], "three": [k(45, [46]), k(46, [48]), k(48, [45])], "chain": [k(45, [46]), k(46, [48]), k(48, [])]}[n]
        if n == "chain":
            del c.maps["class_cons"][a.nid(45)], c.maps["class_cons"][a.nid(46)], c.maps["class_cons"][a.nid(48)]
            r = Rule()
        else:
            r = Rule(reject=True)
        return self.go(c, r, class_cons=cs)

    # -------- local functions
    def let(self, gens, ps=(61,)):
        c = self.open(3)
        a = c.a
        c.quant = [(7, 9)]
        c.kinds.update({50: "LocalFun", 51: "LocalFun"})
        sub = [((1, 33), ("gen", (1, 33), 1))] if gens else []
        c.sc = c.scope("s", 2, [(33, a.enum(U + "types::Type", "Gen", a.nid(33), c.lvl(1)))] if gens else [])
        c.es_ = c.es(c.sc, c.uty("R"))
        c.ret = ("k", "R")
        lf = lambda n, ps, ann, body: ("adt", "itertools::Either", 1, "Right", (a.struct(X + "LocalFun", id=a.nid(n), params=c.params(*ps), ann=a.opt(ann), body=body),))
        lv = lambda n, ann, init: ("adt", "itertools::Either", 0, "Left", (a.struct(X + "LocalVar", id=a.nid(n), ann=a.opt(ann), init=init),))
        defs = [lv(52, None, c.expr(12)), lf(50, [60], None, c.using(10, (15, "LocalFun", 50), (16, "LocalFun", 51))),
                lf(51, list(ps), c.ann(c.ascheme([30], [c.acons(40, 45, c.asty("A0"))], c.asty("A1"))), c.expr(11)), lv(53, c.ann(c.asty("A5")), c.expr(13))]
        x = c.node(1, "Let", a.box(a.struct(X + "ExprLet", defs=("arr", tuple(defs)), body=c.expr(14))))
        r = Rule(result=V("e14"))
        s0 = lambda t: ("subst", tuple(sub), t) if sub else t
        g = [((1, 30), ("gen", (1, 30), 3))] + sub
        s1 = lambda t: ("subst", tuple(sorted(g, key=str)), s0(t))
        A0, A1 = ("k", "import:A0"), ("k", "import:A1")
        given = ("scheme", ((1, 30),), (((1, 40), (1, 45), (s0(A0),)),), s0(A1))
        F = V("F", 3)
        b = V("r0", 3)
        r.eqs = [(fun(V("par60", 3), b), F), (b, V("e10"))]
        b2 = V("r1", 3)
        r.eqs += [(fun(*[V("par%d" % p, 3) for p in ps], b2), s1(A1)), (b2, V("e11"))]
        r.eqs += [(V("e13"), s0(("k", "import:A5")))]
        r.types = {"Parameter#60": V("par60", 3), **{"Parameter#%d" % p: V("par%d" % p, 3) for p in ps}, "LocalVar#52": V("e12"), "LocalVar#53": V("e13")}
        q = self.quantified(F)
        r.schemes = {"LocalFun#50": q, "LocalFun#51": given}
        both = {"LocalFun#50": q, "LocalFun#51": given}
        r.children = {("e", 10): ("inner@3", b, {"LocalFun#50": ("scheme", (), (), F), "LocalFun#51": given, "Parameter#60": V("par60", 3)}),
                      ("e", 11): ("inner@3", b2, {**both, **{"Parameter#%d" % p: V("par%d" % p, 3) for p in ps}}),
                      ("e", 12): ("s", c.ret, both), ("e", 13): ("s", c.ret, both),
                      ("e", 14): ("s", c.ret, {**both, "LocalVar#52": V("e12"), "LocalVar#53": V("e13")})}
        prem = self.assume(40, 45, s1(A0))
        r.assume = {("e", 10): ((), sub), ("e", 11): (prem, g), ("e", 12): ((), sub), ("e", 13): ((), sub), ("e", 14): ((), sub)}
        r.finals = [(3, (7, 9), "s", (), ["e10"], r.eqs[:2]), (3, (), "s", prem, ["e10", "e11"], r.eqs[:4])]
        r.insts = {"Expr#15": self.instantiated()}
        r.asks["vars"] = [(F, 3)]
        return self.ex(c, x, r)

    def let_mutual(self):
        c = self.open(3)
        a = c.a
        c.quant = [(7, 9), (9, 11)]
        c.kinds.update({50: "LocalFun", 51: "LocalFun"})
        c.sc = c.scope("s", 2)
        c.es_ = c.es(c.sc, c.uty("R"))
        c.ret = ("k", "R")
        lf = lambda n, ps, body: ("adt", "itertools::Either", 1, "Right", (a.struct(X + "LocalFun", id=a.nid(n), params=c.params(*ps), ann=NONE, body=body),))
        defs = [lf(50, [60], c.using(10, (15, "LocalFun", 51), (17, "LocalFun", 59))), lf(51, [], c.using(11, (16, "LocalFun", 50)))]
        x = c.node(1, "Let", a.box(a.struct(X + "ExprLet", defs=("arr", tuple(defs)), body=c.expr(14))))
        r = Rule(result=V("e14"))
        F, G, b, b2, p = V("F", 3), V("G", 3), V("r0", 3), V("r1", 3), V("par60", 3)
        r.eqs = [(fun(p, b), F), (fun(b2), G), (b, V("e10")), (b2, V("e11"))]
        r.types = {"Parameter#60": p}
        r.schemes = {"LocalFun#50": self.quantified(F), "LocalFun#51": self.quantified(G)}
        mono = {"LocalFun#50": ("scheme", (), (), F), "LocalFun#51": ("scheme", (), (), G), "Parameter#60": p}
        r.children = {("e", 10): ("inner@3", b, mono), ("e", 11): ("inner@3", b2, mono), ("e", 14): ("s", c.ret, r.schemes)}
        r.finals = [(3, (9,), "s", (), ["e10", "e11"], r.eqs)]
        r.insts = {"Expr#15": self.instantiated(), "Expr#16": self.instantiated()}
        r.asks["vars"] = [(F, 3), (G, 3)]
        return self.ex(c, x, r)


def decl_table(mir):
    f = Decls(mir)
    g = []
    for ps, n in ((None, "a value"), ([], "a function of nothing"), ([60, 61], "a function of two")):
        g.append(("%s without a type" % n, lambda ps=ps: f.impl(ps)))
        g.append(("%s with a type" % n, lambda ps=ps: f.expl(ps)))
        for d in (0, 1):
            g.append(("class method, %s%s" % (n, " with a default" if d else ""), lambda ps=ps, d=d: f.cls(ps, d)))
            g.append(("instance method, %s%s" % (n, " with a type" if d else ""), lambda ps=ps, d=d: f.instance(ps, d)))
    for fl in (0, 1):
        g.append(("functions that use each other%s" % (", other order" if fl else ""), lambda fl=fl: f.mutual(fl)))
        g.append(("functions that use one another%s" % (", other order" if fl else ""), lambda fl=fl: f.chain(fl)))
    g.append(("macro", f.macro))
    g.append(("initialisers", f.inits))
    for n in ("two", "three", "chain"):
        g.append(("class hierarchy %s" % n, lambda n=n: f.cyclic(n)))
    for n in (0, 1):
        g.append(("let%s" % (" under a type parameter" if n else ""), lambda n=n: f.let(n)))
    g.append(("let of a function of nothing with a type", lambda: f.let(0, ())))
    g.append(("let of a function of two with a type", lambda: f.let(1, (61, 62))))
    g.append(("let of functions that use each other", f.let_mutual))
    return g


# ---------------------------------------------------------------- first uses: the type a declaration gives, or another module inferred

class First(Decls):
    def first(self, kind, mid, build):
        """use of a construct that nothing is recorded of"""
        c = self.open(2)
        c.sc = c.scope("s", 2)
        c.es_ = c.es(c.sc, c.uty("R"))
        c.ret = ("k", "R")
        a = c.a
        c.external = {}
        n = a.nid(50, mid)
        val = a.enum(X + ("ValueCon" if kind.endswith("ValueCon") else "Value"), kind.replace("ValueCon", ""), n)
        x = c.node(1, "Con", val) if kind.endswith("ValueCon") else c.node(1, "Use", c.use(val))
        key = "%s#50" % kind
        if mid == 1:
            sch, decls = build(c)
            c.root(**decls)
        else:
            c.root()
            if kind == "CFunction":
                sch = ("k", "import:X1")
                c.external[(mid, 50)] = c.asty("X1")
            else:
                sch = ("scheme", ((1, 30),), (((1, 40), (1, 48), (("k", "import:X0"),)),), ("k", "import:X1"))
                c.external[(mid, 50)] = c.ascheme([30], [c.acons(40, 48, c.asty("X0"))], c.asty("X1"))
        if sch[0] != "scheme":
            r = Rule(result=sch, types={"Expr#1": sch, key: sch}, insts={"Expr#1": ((), ())})
        else:
            m = tuple((g, ("v", ("u", i, g), 2)) for i, g in enumerate(sch[1]))
            s = lambda t: substitute(m, t)
            puts = [(i, k, tuple(s(t) for t in ts)) for i, k, ts in sch[2]]
            r = Rule(result=s(sch[3]), types={"Expr#1": s(sch[3])}, schemes={key: sch}, puts={"s": puts},
                     insts={"Expr#1": (tuple(t for _, t in m), tuple(("put", "s", p) for p in puts))})
        return self.ex(c, x, r)

    def b_function(self, c):
        f = self.function(c, 50, None, c.ann(c.ascheme([30], [c.acons(40, 48, c.asty("A0"))], c.asty("A1"))), c.expr(10))
        return ("scheme", ((1, 30),), (((1, 40), (1, 48), (("k", "import:A0"),)),), ("k", "import:A1")), dict(functions=[f])

    def b_cfunction(self, c):
        a = c.a
        return ("k", "import:A1"), dict(c_functions=[a.struct(DE + "CFunction", id=a.nid(50), ann=c.ann(c.asty("A1")), c_name=("s", "f"))])

    def b_op(self, c):
        a = c.a
        f = a.struct(DE + "BuiltinOp", id=a.nid(50), ann=c.ann(c.ascheme([30], [], c.asty("A1"))), builtin_name=("s", "f"))
        return ("scheme", ((1, 30),), (), ("k", "import:A1")), dict(builtin_ops=[f])

    def b_method(self, c):
        m = self.method(c, 50, None, None)
        return self.EXT, dict(class_cons=[self.klass(c, [50])], class_methods=[m])

    def b_con(self, kind, ps, n):
        def build(c):
            a = c.a
            fs = None if n is None else ("arr", tuple(a.struct(DE + "ValueConField", id=a.nid(90 + i), ty=c.asty("F%d" % i)) for i in range(n)))
            o = dict(id=a.nid(50), fields=a.opt(fs), type_con=a.nid(58))
            t = dict(id=a.nid(58), ty_params=("arr", tuple(c.aparam(g) for g in ps)), value_cons=("arr", (a.nid(50),)))
            if kind == "Data":
                v = a.struct(DE + "DataValueCon", **o)
                t = a.struct(DE + "DataTypeCon", repr=a.enum(DE + "DataRepr", "Default"), **t)
            else:
                v = a.struct(DE + "BuiltinValueCon", builtin_name=("s", "f"), **o)
                t = a.struct(DE + "BuiltinTypeCon", builtin_name=("s", "g"), **t)
            ret = ("con", "%s#1.58" % kind)
            if ps:
                ret = ap(ret, *[("gen", (1, g), 0) for g in ps])
            if n is not None:
                ret = fun(*[("k", "import:F%d" % i) for i in range(n)], ret)
            k = kind.lower()
            return ("scheme", tuple((1, g) for g in ps), (), ret), {k + "_value_cons": [v], k + "_type_cons": [t]}
        return build


def first_table(mir):
    f = First(mir)
    g = []
    for k, b in (("Function", f.b_function), ("CFunction", f.b_cfunction), ("BuiltinOp", f.b_op), ("ClassMethod", f.b_method)):
        g.append(("first use of a %s" % k, lambda k=k, b=b: f.first(k, 1, b)))
        g.append(("first use of a %s of another module" % k, lambda k=k: f.first(k, 3, None)))
    for k in ("Data", "Builtin"):
        g.append(("first use of a %s constructor of another module" % k, lambda k=k: f.first(k + "ValueCon", 3, None)))
        for ps in ([], [30, 31]):
            for n in (None, 0, 2):
                g.append(("first use of a %s constructor of %s fields, %d parameters" % (k, n, len(ps)),
                          lambda k=k, ps=ps, n=n: f.first(k + "ValueCon", 1, f.b_con(k, ps, n))))
    return g


# ---------------------------------------------------------------- closing a scope, satisfying a constraint, overlapping instances

class Solve(Decls):
    def __init__(self, mir):
        super().__init__(mir)

    def ctx_constraint(self, c, k):
        a = c.a
        rc = c.e.new_cell(c.st, NONE)
        return a.struct(UN + "ContextConstraint", constraint=k, var=rc), rc[1]

    def premise_value(self, c, cands):
        """candidates: [(class, identifier, [path], [types])]"""
        a = c.a
        m = {}
        for cls, cid, path, ts in cands:
            m.setdefault(cls, []).append(a.struct(UN + "PremiseClassConstraint", id=a.nid(cid), path=("arr", tuple(a.nid(x) for x in path)), class_args=("arr", tuple(c.uty(t) for t in ts))))
        return a.struct(UN + "Premise", class_constraints=("map", None, tuple((a.nid(k), ("arr", tuple(v))) for k, v in m.items())))

    # ---- closing: constraints are (name, class, deepest level, [(unknown, level)])
    def close(self, lv, cons, quant, outer):
        c = self.open(lv)
        c.solver = True
        c.analyse = ("finalize_scope",)
        a = c.a
        c.facts = {}
        cs, cells = [], {}
        for i, (n, cls, deep, vs) in enumerate(cons):
            c.facts[("k", n)] = (deep, vs)
            cid = {"Number": self.K["#Number"], "FPNumber": self.K["#FPNumber"]}.get(cls, (1, 300 + i))
            cl = self.K[cls] if isinstance(cls, str) else (1, cls)
            k = a.struct(UN + "Constraint", id=a.nid(cid[1], cid[0]), rep=a.enum(UN + "ConstraintRep", "Class", a.nid(cl[1], cl[0]), ("arr", (c.uty(n),))))
            v, cell = self.ctx_constraint(c, k)
            cs.append(v)
            cells[cell] = (n, cls, deep, vs)
        prem = self.premise_value(c, [(48, 700, [], ["P0"])])
        scope = a.struct(UN + "Scope", level=c.lvl(lv), context_constraints=("arr", tuple(cs)), context_premise=prem, scoped_gen_types=("map", None, ()))
        q = ("map", None, tuple((c.var(v), UNIT) for v in quant))
        o = c.scope("outer", lv - 1) if outer else None
        cx = c.context()
        args = [cx, c.construct("Function", 50), scope, q, c.a.opt(o)]
        return c, CX + "finalize_scope", args, lambda c, outs, name: self.closed(c, outs, name, lv, cells, set(quant), o)

    def closed(self, c, outs, name, lv, cells, quant, outer):
        bad = []
        say = lambda m: bad.append("%s: %s" % (name, m))
        good = 0
        prem = ((1, 48), (1, 700), (), (("k", "P0"),))
        for st, v in outs:
            p = Path(c, st, v)
            if p.failed:
                if p.kind() != "Err":
                    say("'%s' fails and the scope is closed all the same" % p.failed[0])
                elif p.after:
                    say("%s is still asked after '%s' failed" % (p.after[0], p.failed[0]))
                continue
            if p.kind() != "Ok":
                say("rejected although nothing failed")
                continue
            good += 1
            by = {x[1][2][0]: x for x in p.ev if x[0] == "satisfy"}
            uni = [x[1:3] for x in p.ev if x[0] == "unify"]
            kinds = dict(x[1:3] for x in p.ev if x[0] == "kind")
            first = min([i for i, x in enumerate(p.ev) if x[0] == "satisfy"] or [10 ** 6])
            if any(x[0] == "unify" for x in p.ev[first:]):
                say("a constraint is satisfied before the unknowns of the scope are settled")
            res = v[4][0][1]
            gens = [idnum(c.e.res(st, x)) for x in seq(c.e, st, res[0])]
            cons = [c.constraint_term(st, x) for x in seq(c.e, st, res[1])]
            # quantified unknowns become type parameters of the same kind
            want = {}
            for a, b in uni:
                if b[0] == "gen":
                    want[a] = b
            if {("n", q) for q in quant} != set(want) or sorted(b[1] for b in want.values()) != sorted(gens) or len(set(gens)) != len(gens):
                say("the unknowns %s are to be type parameters; they are %s" % (sorted(quant), sorted("%s:=%s" % (show(a), show(b)) for a, b in want.items())))
            for a, b in want.items():
                if kinds.get(b[1]) != "kind(%r)" % str(a) and str(a) not in str(kinds.get(b[1])):
                    say("a type parameter does not get the kind of what it stands for")
                if b[2] != 0:
                    say("a type parameter is made for level %d" % b[2])
            related = {}
            wout = []
            ncons = []
            for cell, (n, cls, deep, vs) in cells.items():
                mine = {x for x, l in vs if l >= lv}
                got = c.e.load(st, cell, ())
                s = None if got[3] == "None" else path_sat(c, st, got[4][0], {})
                e = by.get(("k", n))
                if outer is not None and deep < lv:
                    kind = "outer"
                elif mine and mine <= quant:
                    kind = "param"
                else:
                    kind = "now"
                    for x in mine - quant:
                        related.setdefault(x, []).append((n, cls))
                if kind == "param":
                    if e is not None:
                        say("a constraint over type parameters only is resolved by an instance")
                    ncons.append((n, s))
                    continue
                if e is None:
                    say("constraint %s is never satisfied" % n)
                    continue
                if e[2] != (prem,) or e[3] != I(0, "i32"):
                    say("constraint %s is satisfied under other assumptions" % n)
                if e[4] != (kind == "outer"):
                    say("constraint %s is %s" % (n, "put off" if e[4] else "not put off to the enclosing scope"))
                if any(x[0] == "deferred" and x[1] == e[5] for x in p.ev):
                    wout.append((n, cell))
                    if s is not None:
                        say("constraint %s is put off and resolved" % n)
                elif s != ("premise", (1, e[5]), ()):
                    say("constraint %s is resolved by %s" % (n, s))
            if len(ncons) != len(cons):
                say("%d constraints on the type parameters, the rule has %d" % (len(cons), len(ncons)))
            else:
                for n, s in ncons:
                    k = [x for x in cons if x[2] == (("k", n),)]
                    if len(k) != 1 or s != ("premise", k[0][0], ()) or k[0][0] not in [(1, x[1]) for x in p.ev if x[0] == "newid"]:
                        say("constraint %s is not passed as a parameter of its own" % n)
            o = []
            if outer is not None:
                f = fields(c.mir, c.e.load(st, *c.e.deref(st, outer)))
                for x in seq(c.e, st, f["context_constraints"]):
                    g = fields(c.mir, x)
                    o.append((c.constraint_term(st, g["constraint"])[2][0][1], rc_key(c.e, st, g["var"])))
            if sorted(o) != sorted(wout):
                say("put off to the enclosing scope: %s, the rule has %s" % (o, wout))
            # unknowns of the scope that are not quantified
            same = {x[1:3]: x[3] for x in p.ev if x[0] == "same"}
            rest = {a: b for a, b in uni if b[0] != "gen"}
            if len(rest) + len(want) != len(uni):
                say("an unknown is settled twice")
            if set(rest) != {("n", x) for x in related}:
                say("unknowns %s are to be defaulted; %s are" % (sorted(related), sorted(rest)))
                continue
            for x, ks in related.items():
                t = self.K["unit"]
                for cls, con in (("FPNumber", "F64"), ("Number", "I32")):
                    ans = [same.get((("n", x), ("k", n)), same.get((("k", n), ("n", x)))) for n, k in ks if k == cls]
                    if any(y is True for y in ans):
                        t = self.K[con]
                        break
                    if any(y is None for y in ans):
                        t = None
                        break
                if t is None or rest[("n", x)] != t:
                    say("an unknown under the constraints %s is taken for %s, the rule has %s" % (
                        ", ".join(str(k) for _, k in ks), show(rest[("n", x)]), "to ask more" if t is None else show(t)))
        if not good:
            say("never closed")
        return bad

    # ---- satisfying
    def satisfy(self, cands, insts, count=0, nargs=1):
        c = self.open()
        c.solver = c.entry = True
        a = c.a
        k = c.constraint("k", 600, 45, [c.uty("K%d" % i) for i in range(nargs)])
        c.facts = {("k", "K%d" % i): (0, ((7 + i, 0),)) for i in range(nargs)}
        prem = a.box(self.premise_value(c, cands))
        for i, sp in insts:
            c.maps["instance_cons"][a.nid(i)] = a.struct(
                UN + "InstanceCon", ty_params=("arr", (a.nid(i + 1000),)), s_params=("arr", tuple(c.constraint("x", i * 10 + j, 48, [c.uty("S%d.%d" % (i, j))]) for j in range(sp))),
                target=c.constraint("t", i + 2000, 45, [c.uty("I%d.%d" % (i, j)) for j in range(nargs)]))
        c.avail = a.struct("llrl::module::meaning::AvailableInstances", map=("map", None, (
            (a.nid(45), ("map", None, tuple((a.nid(i), UNIT) for i, _ in insts))), (a.nid(46), ("map", None, ((a.nid(999), UNIT),))))))
        cx = c.context()
        args = [cx, prem, a.box(k), I(count, "i32")]
        c.tself = (("param", "E"), ("adt", ERRORS, ()))
        return c, CX + "build_satisfaction", args, lambda c, outs, name: self.satisfied(c, outs, name, cands, insts, count, nargs)

    def satisfied(self, c, outs, name, cands, insts, count, nargs):
        bad = []
        say = lambda m: bad.append("%s: %s" % (name, m))
        K = [("k", "K%d" % i) for i in range(nargs)]
        pt = tuple(sorted((((1, cls), (1, cid), tuple((1, x) for x in path), tuple(("k", t) for t in ts)) for cls, cid, path, ts in cands), key=str))
        for st, v in outs:
            p = Path(c, st, v)
            if count > 20:
                if p.kind() != "Err" or any(x[0] in ("match", "satisfy") for x in p.ev):
                    say("goes on beyond the limit")
                continue
            same = {}
            for x in p.ev:
                if x[0] == "same":
                    same[x[1:3]] = same[x[2:0:-1]] = x[3]
            how = None
            open_ = False
            for cls, cid, path, ts in cands:
                if cls != 45:
                    continue
                ans = [same.get((("k", t), k)) for t, k in zip(ts, K)]
                if False in ans:
                    continue
                if None in ans:
                    open_ = True
                    continue
                how = ("premise", (1, cid), tuple((1, x) for x in path))
                break
            res = path_sat(c, st, v[4][0], {}) if p.kind() == "Ok" else None
            if how is not None or res is not None and res[0] == "premise":
                if res is None:
                    say("rejected although it is assumed")
                elif how is None or res not in [("premise", (1, cid), tuple((1, x) for x in path)) for cls, cid, path, ts in cands
                                                if cls == 45 and all(same.get((("k", t), k)) for t, k in zip(ts, K))]:
                    say("taken from an assumption that is not the same")
                continue
            if "check overlap" in p.failed:
                if p.kind() != "Err" or p.after:
                    say("goes on with overlapping instances")
                continue
            if not any(x[0] == "overlap" and x[1] == (1, 45) for x in p.ev):
                say("an instance is chosen, or none, before overlap is ruled out")
                continue
            # instances: by the events after each match
            tried = {}
            for x in p.ev:
                if x[0] == "match":
                    n = [i for i, _ in insts if str(x[1]).count("'I%d." % i)]
                    if len(n) != 1:
                        say("matches %s, not the target of an instance" % show(x[1]))
                        continue
                    tried.setdefault(n[0], []).append(x[1:4])
                    if not {7 + i for i in range(nargs)} <= set(x[4]):
                        say("to match an instance, an unknown of the constraint may be decided")
            chosen = None
            for i, sp in insts:
                ms = tried.get(i, [])
                ok_ = 0
                for a, b, r in ms:
                    if a[0] != "subst" or len(a[1]) != 1 or a[1][0][0] != (1, i + 1000) or a[1][0][1][0] != "v":
                        say("an instance is not instantiated afresh: %s" % show(a))
                    elif a[2][1] != "I%d.%d" % (i, K.index(b) if b in K else 99):
                        say("%s is matched to %s" % (show(a), show(b)))
                    elif a[1][0][1][2] < c.st_level:
                        say("an instance is instantiated at level %d" % a[1][0][1][2])
                    ok_ += r
                if len({b for _, b, _ in ms}) == nargs and ok_ == len(ms) == nargs:
                    chosen = (i, sp, ms[0][0][1][0][1])
            sat = [x for x in p.ev if x[0] == "satisfy"]
            if chosen is None:
                if p.kind() == "Ok":
                    say("satisfied by %s, which does not match" % (res,))
                elif sat:
                    say("asks for the constraints of an instance that does not match")
                for i, sp in insts:
                    if not any(not r for _, _, r in tried.get(i, [])):
                        say("rejected without trying instance %d" % i)
                continue
            i, sp, tv = chosen
            want = [((1, i * 10 + j), (1, 48), (("subst", (((1, i + 1000), tv),), ("k", "S%d.%d" % (i, j))),)) for j in range(sp)]
            for x in sat:
                if x[2] != pt:
                    say("a constraint of the instance is satisfied under other assumptions")
                if x[3] != I(count + 1, "i32"):
                    say("the depth of the search is not counted")
                if x[1] not in want:
                    say("a constraint that is not the instance's is asked: %s" % show(x[1][2][0]))
            if p.failed:
                if p.kind() != "Err":
                    say("satisfied although a constraint of the instance is not")
                elif p.after:
                    say("%s is still asked after '%s' failed" % (p.after[0], p.failed[0]))
                continue
            if res is None:
                say("rejected although an instance matches")
                continue
            ids = {x[1]: x[5] for x in sat}
            if set(ids) != set(want):
                say("the constraints of the instance are not all satisfied")
                continue
            if res != ("inst", (1, i), (tv,), tuple(("premise", (1, ids[w]), ()) for w in want)):
                say("the instance is recorded as %s" % (res,))
        return bad

    # ---- overlap
    def overlap(self, insts, seen=False):
        c = self.open()
        c.analyse = ("ensure_overlap_checked",)
        a = c.a
        for m, i in insts:
            c.maps["instance_cons"][a.nid(i, m)] = a.struct(
                UN + "InstanceCon", ty_params=("arr", (a.nid(i + 1000, m),)), s_params=("arr", (c.constraint("x", i * 10, 48, [c.uty("S%d" % i)]),)),
                target=c.constraint("t", i + 2000, 45, [c.uty("I%d.%d" % (i, j)) for j in range(2)]))
        c.avail = a.struct("llrl::module::meaning::AvailableInstances", map=("map", None, (
            (a.nid(45), ("map", None, tuple((a.nid(i, m), UNIT) for m, i in insts))), (a.nid(46), ("map", None, ((a.nid(999), UNIT),))))))
        c.seen_classes = [45] if seen else [46]
        cx = c.context()
        return c, CX + "ensure_overlap_checked", [cx, a.nid(45)], lambda c, outs, name: self.overlapped(c, outs, name, insts, seen)

    def overlapped(self, c, outs, name, insts, seen):
        bad = []
        say = lambda m: bad.append("%s: %s" % (name, m))
        for st, v in outs:
            p = Path(c, st, v)
            got = {}
            last = None
            for x in p.ev:
                if x[0] == "unify":
                    pair = []
                    for t in x[1:3]:
                        n = [i for _, i in insts if "'I%d." % i in str(t)]
                        if len(n) != 1 or t[0] != "subst" or t[1][0][0][1] != n[0] + 1000 or t[1][0][1][0] != "v":
                            say("overlap is asked of %s" % show(t))
                            continue
                        pair.append((n[0], t[2][1].split(".")[1], t[1][0][1]))
                    if len(pair) == 2:
                        if pair[0][1] != pair[1][1]:
                            say("different arguments are compared")
                        if pair[0][2][1] == pair[1][2][1]:
                            say("instances are not instantiated apart")
                        last = got.setdefault(tuple(sorted(x[0] for x in pair)), {})
                        last[pair[0][1]] = True
                elif x[0] == "failed" and last is not None:
                    last["no"] = True
            over = [k for k, g in got.items() if "no" not in g and {"0", "1"} <= set(g)]
            if over:
                if p.kind() != "Err":
                    say("overlapping instances are accepted")
                continue
            if p.kind() == "Err":
                say("rejected although no instances overlap")
                continue
            if seen:
                continue
            for n, (m, i) in enumerate(insts):
                for m2, i2 in insts[n + 1:]:
                    k = tuple(sorted((i, i2)))
                    if (m != m2 or m == 1) and k not in got:
                        say("instances of %s are not compared" % ("one module" if m == m2 else "different modules"))
            s = fields(c.mir, c.e.load(st, *c.e.deref(st, c.cx)))["overlap_checked_available_instances"]
            if {idnum(c.e.res(st, k))[1] for k, _ in s[2]} != {45, 46}:
                say("other classes are taken for checked")
        return bad


def solve_table(mir):
    f = Solve(mir)
    g = []
    A, N, P = 48, "Number", "FPNumber"
    for name, cons, quant in (
            ("nothing", [], []), ("type parameters only", [], [7, 9]),
            ("a constraint on a type parameter", [("T0", A, 0, [(7, 0)])], [7]),
            ("a constraint on two", [("T0", A, 0, [(7, 0), (9, 0)])], [7, 9]),
            ("a constraint on a type parameter and another unknown", [("T0", A, 0, [(7, 0), (8, 0)])], [7]),
            ("a constraint on nothing", [("T0", A, 0, [])], [7]),
            ("a number", [("T0", N, 0, [(8, 0)])], []), ("a floating point number", [("T0", P, 0, [(8, 0)])], []),
            ("a number that is floating point", [("T0", N, 0, [(8, 0)]), ("T1", P, 0, [(8, 0)])], []),
            ("a number and more", [("T0", A, 0, [(8, 0)]), ("T1", N, 0, [(8, 0)])], [7]),
            ("something else", [("T0", A, 0, [(8, 0)])], []),
            ("two unknowns", [("T0", N, 0, [(8, 0)]), ("T1", A, 0, [(8, 0), (10, 0)]), ("T2", A, 0, [(7, 0)])], [7])):
        g.append(("closing over %s" % name, lambda cons=cons, quant=quant: f.close(0, cons, quant, False)))
        up = [(n, k, d + 2, [(v, l + 2) for v, l in vs]) for n, k, d, vs in cons]
        g.append(("closing an inner scope over %s" % name, lambda up=up, quant=quant: f.close(2, up, quant, True)))
    g.append(("closing over a constraint of the enclosing scope", lambda: f.close(2, [("T0", A, 1, [(6, 1)]), ("T1", A, 2, [(7, 2), (6, 1)])], [7], True)))
    g.append(("closing over a number of the enclosing scope", lambda: f.close(2, [("T0", N, 1, [(6, 1)]), ("T1", N, 2, [(8, 2)])], [], True)))
    g.append(("closing over a constant constraint", lambda: f.close(2, [("T0", A, 0, [])], [], True)))
    for name, cands, insts, n in (("nothing", [], [], 1), ("an assumption", [(45, 701, [], ["C0"])], [], 1), ("an assumption of a superclass", [(45, 701, [47], ["C0"])], [], 1),
                                  ("two assumptions", [(45, 701, [], ["C0"]), (48, 702, [], ["C1"]), (45, 703, [47], ["C2"])], [], 1),
                                  ("an assumption on two types", [(45, 701, [], ["C0", "C1"])], [], 2), ("an instance", [], [(65, 0)], 1),
                                  ("an instance with constraints", [], [(65, 2)], 1), ("an instance on two types", [], [(65, 0)], 2),
                                  ("two instances", [], [(65, 1), (66, 0)], 1), ("an assumption and an instance", [(45, 701, [], ["C0"])], [(65, 1)], 1),
                                  ("assumptions on another class", [(48, 701, [], ["C0"])], [(65, 1)], 1)):
        g.append(("a constraint and %s" % name, lambda cands=cands, insts=insts, n=n: f.satisfy(cands, insts, 3, n)))
    g.append(("a constraint at the limit", lambda: f.satisfy([], [(65, 1)], 20)))
    g.append(("a constraint beyond the limit", lambda: f.satisfy([], [(65, 1)], 21)))
    for name, insts in (("one", [(1, 65)]), ("two here", [(1, 65), (1, 66)]), ("one here and one of another module", [(1, 65), (3, 66)]), ("two of different modules", [(3, 65), (4, 66)]),
                        ("two of another module", [(3, 65), (3, 66)]), ("three", [(1, 65), (3, 66), (3, 67)])):
        g.append(("overlap, %s" % name, lambda insts=insts: f.overlap(insts)))
    g.append(("overlap, seen before", lambda: f.overlap([(1, 65), (1, 66)], True)))
    return g
