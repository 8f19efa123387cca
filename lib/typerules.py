"""Type inference as analysed code: the constraints each form of the language is given, form by form.

A form is given with abstract parts. What the code asks of them (infer the type of a part, unify, instantiate, record) is
collected on every path; the parts' types are unknowns. The collected equations are compared, solved, with those of the
typing rule."""
from forms import *

X = "llrl::ast::expr::"
PA = "llrl::ast::pattern::"
DE = "llrl::ast::decl::"
U = "llrl::unification::"
TI = "llrl::module::sema::type_inference::"
UN = TI + "unification::"
CX = TI + "Context::<'a, E>::"
TYPE = ("adt", U + "types::Type", ())
AST_TYPE = ("adt", "llrl::ast::types::Type", ())
ERRORS = "llrl::module::error::Error"
ERR = ("adt", "std::boxed::Box", ())
BOTTOM = 0xffffffff


# ---------------------------------------------------------------- terms: python types of the unknowns and of what is built from them
#   ("v", key, level)  ("con", name)  ("gen", id, level)  ("ap", callee, (args))  ("k", name)  ("subst", ((gen, term)...), term)

def term(e, st, v):
    v = e.res(st, v)
    if v[0] == "sym":
        return ("k", v[1])
    if v[0] == "app":
        if v[1] == "tyvar":
            return ("v", v[2][0][1], level(e, st, v[2][1]))
        if v[1] == "ty":
            return ("v", v[2][0][1], None)
        if v[1] == "tyapp":
            return ("ap", term(e, st, v[2][0]), tuple(term(e, st, x) for x in v[2][1][1]))
        if v[1] == "import":
            return ("k", "import:%s" % (v[2][0][1],))
        if v[1] == "subst":
            return substitute(tuple(sorted((k, term(e, st, x)) for k, x in genmap(e, st, v[2][0]))), term(e, st, v[2][1]))
    if v[0] == "adt":
        if v[3] == "Con":
            return ("con", con_name(v[4][0]))
        if v[3] == "Gen":
            return ("gen", idnum(v[4][0]), level(e, st, v[4][1]))
    raise Bad("a type that cannot be followed: %s" % str(v)[:200])


def substitute(m, t):
    if t[0] == "gen":
        for k, x in m:
            if k == t[1]:
                return x
        return t
    if t[0] == "ap":
        return ("ap", substitute(m, t[1]), tuple(substitute(m, x) for x in t[2]))
    if t[0] in ("con", "v"):
        return t
    return ("subst", m, t) if m else t


def genmap(e, st, v):
    v = e.res(st, v)
    if v[0] == "ref":
        v = e.through(st, v)
    if v[0] == "sym":
        return [(v[1], v)]
    if v[0] != "map" or v[1] is not None:
        raise Bad("a substitution that is not known: %s" % str(v)[:100])
    return [(idnum(e.res(st, k)), x) for k, x in v[2]]


def level(e, st, v):
    v = e.res(st, v)
    if v[0] == "adt" and v[4] and v[4][0][0] == "i":
        return v[4][0][1]
    raise Bad("a level that is not known: %s" % str(v)[:100])


def con_name(v):
    """a type constructor: name of the constant, or its number"""
    n = idnum(v[4][0]) if v[0] == "adt" and v[4] else None
    if n is None:
        raise Bad("a type constructor that is not known: %s" % str(v)[:100])
    return "%s#%d.%d" % (v[3], n[0], n[1])


class Eqs:
    """first order equations, solved"""

    def __init__(self):
        self.s = {}
        self.lv = {}
        self.bad = None

    def walk(self, t):
        while t[0] == "v" and t[1] in self.s:
            t = self.s[t[1]]
        return t

    def full(self, t):
        t = self.walk(t)
        if t[0] == "ap":
            return ("ap", self.full(t[1]), tuple(self.full(x) for x in t[2]))
        if t[0] == "subst":
            return substitute(tuple((k, self.full(x)) for k, x in t[1]), self.full(t[2]))
        if t[0] == "v":
            l = [x for x in (self.lv.get(t[1]), t[2]) if x is not None]
            return ("v", t[1], min(l) if l else None)
        return t

    def lower(self, t, lv):
        t = self.walk(t)
        if t[0] == "v":
            o = [x for x in (self.lv.get(t[1]), t[2], lv) if x is not None]
            if o:
                self.lv[t[1]] = min(o)
        elif t[0] == "ap":
            for x in (t[1],) + t[2]:
                self.lower(x, lv)

    def eq(self, a, b):
        a, b = self.walk(a), self.walk(b)
        if a[:2] == b[:2] and a[0] == "v":
            return
        if a[0] == "v" or b[0] == "v":
            if a[0] != "v":
                a, b = b, a
            l = [x for x in (self.lv.get(a[1]), a[2]) if x is not None]
            if occurs(self.full(b), a[1]):
                self.bad = "circular"
                return
            self.s[a[1]] = b
            if l:
                self.lower(b, min(l))
            return
        if a[0] == "ap" and b[0] == "ap" and len(a[2]) == len(b[2]):
            self.eq(a[1], b[1])
            for x, y in zip(a[2], b[2]):
                self.eq(x, y)
            return
        if a != b:
            # constants that are not known to be the same: an obligation of its own
            self.s.setdefault(("obl",), ()) 
            self.s[("obl",)] += ((min(a, b, key=str), max(a, b, key=str)),)


def unknowns(t):
    if t[0] == "v":
        return [t[1]]
    if t[0] == "ap":
        return unknowns(t[1]) + [y for x in t[2] for y in unknowns(x)]
    return []


def opaque(t):
    if t[0] == "ap":
        return opaque(t[1]) or any(opaque(x) for x in t[2])
    return t[0] not in ("con", "v") or t[0] == "v" and isinstance(t[1], str)


def occurs(t, k):
    if t[0] == "v":
        return t[1] == k
    return t[0] == "ap" and (occurs(t[1], k) or any(occurs(x, k) for x in t[2]))


class Canon:
    """names of unknowns by first occurrence"""

    def __init__(self, eqs):
        self.eqs, self.n = eqs, {}

    def __call__(self, t):
        if t is None:
            return None
        return self.go(self.eqs.full(t))

    def go(self, t):
        if t[0] == "v":
            k = t[1][-1] if isinstance(t[1], tuple) else None    # an instance of a type parameter has its kind
            n = self.n.setdefault(t[1], len(self.n))
            return ("v", n if k is None else (n, k), t[2])
        if t[0] == "ap":
            return ("ap", self.go(t[1]), tuple(self.go(x) for x in t[2]))
        if t[0] == "subst":
            return ("subst", tuple((k, self.go(x)) for k, x in t[1]), self.go(t[2]))
        return t


# ---------------------------------------------------------------- the analysed side

class Case:
    def __init__(self, mir, hooks=()):
        self.mir = mir
        self.st = State()
        self.e = Engine(mir, self.hook, max_visits=200, max_depth=120)
        self.a = Ast(mir, self.e, self.st)
        self.children = {}
        self.extra = dict(hooks)
        self.fail = True
        a = self.a
        self.clip = 0
        self.root_ = None
        self.avail = None
        self.seen_classes = ()
        self.tself = (('param', 'E'),)
        self.st_level = 0
        self.facts = None
        self.external = None
        self.kinds = {}
        self.quant = None
        self.final = ((), ())
        self.arities = None
        self.start = {"types": {}, "schemes": {}, "insts": {}}
        self.maps = {k: {} for k in ("schemes", "types", "class_cons", "instance_cons", "instantiations")}
        self.scopes = {}

    # -- construction
    def expr(self, n, rep=None):
        """an abstract expression (or one that only its uses are known of); its identifier is n"""
        self.children[("e", n)] = "e%d" % n
        return self.a.struct(X + "Expr", id=self.a.nid(n), rep=rep or ("sym", "expr:%d" % n, ("adt", X + "ExprRep", ())))

    def using(self, n, *uses):
        """an expression that uses values: n is its identifier, uses (identifier, kind, of what)"""
        rep = self.a.enum(X + "ExprRep", "Seq", self.a.box(self.a.struct(X + "ExprSeq", stmts=("arr", tuple(
            self.node(i, "Use", self.use(self.value(k, w))) for i, k, w in uses)), ret=self.node(n + 5000, "Const", self.a.enum("llrl::ast::consts::Const", "Char", I(65, "char"))))))
        return self.expr(n, rep)

    def params(self, *ns):
        return ("arr", tuple(self.a.struct(DE + "Parameter", id=self.a.nid(n)) for n in ns))

    def ann(self, body, n=70):
        return self.a.struct("llrl::ast::Annotation", id=self.a.nid(n), body=body)

    def asty(self, name):
        return ("sym", name, AST_TYPE)

    def aparam(self, g):
        return self.a.struct("llrl::ast::types::TypeParameter", id=self.a.nid(g), ann=NONE)

    def acons(self, cid, cls, *tys):
        a = self.a
        return a.struct("llrl::ast::types::Constraint", id=a.nid(cid), rep=a.enum("llrl::ast::types::ConstraintRep", "Class", self.use(a.nid(cls)), ("arr", tuple(tys))))

    def ascheme(self, gens, cons, body):
        return self.a.struct("llrl::ast::types::Scheme", ty_params=("arr", tuple(self.aparam(g) for g in gens)), s_params=("arr", tuple(cons)), body=body)

    def root(self, **kw):
        a = self.a
        f = {x["n"]: ("map", None, ()) for x in self.mir.adts["llrl::ast::root::Root"]["variants"][0]["fields"]}
        f["id"], f["init_expressions"] = a.nid(0), ("arr", ())
        for k, v in kw.items():
            f[k] = ("arr", tuple(v)) if k == "init_expressions" else ("map", None, tuple((fields(self.mir, x)["id"], x) for x in v))
        self.root_ = a.box(a.struct("llrl::ast::root::Root", **f))
        return self.root_

    def node(self, n, var, *f):
        return self.a.struct(X + "Expr", id=self.a.nid(n), rep=self.a.enum(X + "ExprRep", var, *f))

    def pat(self, n):
        self.children[("p", n)] = "p%d" % n
        return self.a.struct(PA + "Pattern", id=self.a.nid(n), rep=("sym", "pat:%d" % n, ("adt", PA + "PatternRep", ())))

    def pnode(self, n, var, *f):
        return self.a.struct(PA + "Pattern", id=self.a.nid(n), rep=self.a.enum(PA + "PatternRep", var, *f))

    def lvl(self, n):
        return self.a.struct2(U + "Level", I(n, "u32"))

    def gen(self, n):
        return self.a.nid(n)

    def uty(self, name):
        return ("sym", name, TYPE)

    def constraint(self, name, cid, cls, args):
        a = self.a
        return a.struct(UN + "Constraint", id=a.nid(cid), rep=a.enum(UN + "ConstraintRep", "Class", a.nid(cls), ("arr", tuple(args))))

    def scheme(self, gens, cons, body):
        a = self.a
        return a.struct(UN + "Scheme", ty_params=("arr", tuple(a.nid(g) for g in gens)), s_params=("arr", tuple(cons)), body=body)

    def use(self, v):
        return self.a.enum("llrl::ast::Use", "Resolved", v, NONE)

    def value(self, kind, n):
        return self.a.enum(X + "Value", kind, self.a.nid(n))

    def construct(self, kind, n):
        return self.a.enum("llrl::ast::construct::Construct", kind, self.a.nid(n))

    def give(self, kind, n, *f):
        """what is known of a construct before: a type, or a scheme (generics, constraints, body)"""
        k = "%s#%d" % (kind, n)
        if len(f) == 1:
            self.maps["types"][self.construct(kind, n)] = f[0]
            self.start["types"][k] = term(self.e, self.st, f[0])
        else:
            v = self.scheme(*f)
            self.maps["schemes"][self.construct(kind, n)] = v
            self.start["schemes"][k] = self.scheme_term(self.st, v)

    def scope(self, name, lv, gens=(), premise=None):
        a = self.a
        v = a.struct(UN + "Scope", level=self.lvl(lv), context_constraints=("arr", ()),
                     context_premise=a.struct(UN + "Premise", class_constraints=premise or ("map", None, ())),
                     scoped_gen_types=("map", None, tuple((a.nid(g), t) for g, t in gens)))
        c = a.box(v)
        self.scopes[c[1]] = name
        return c

    def es(self, scope, ret):
        return self.a.box(self.a.struct(TI + "ExprScope", scope=scope, return_ty=self.a.opt(ret)))

    def context(self):
        a = self.a
        sym = lambda n: ("sym", n, ("adt", n, ()))
        u = {f["n"]: sym("u_ctx." + f["n"]) for f in self.mir.adts[U + "types::Context"]["variants"][0]["fields"]}
        te = {f["n"]: a.box(sym("type_env." + f["n"])) for f in self.mir.adts[TI + "type_env::TypeEnv"]["variants"][0]["fields"]}
        if self.avail is not None:
            te["available_instances"] = a.box(self.avail)
        if self.root_ is not None:
            te["local_ast_root"] = self.root_
        ut = a.struct(TI + "UnifyingTypes", **{k: ("map", None, tuple(m.items())) for k, m in self.maps.items()})
        cx = {"mid": ("adt", "llrl::ast::node_id::ModuleId", 0, "", (I(1, "u32"),)), "u_ctx": a.struct(U + "types::Context", **u), "u_types": ut,
              "type_env": a.struct(TI + "type_env::TypeEnv", **te), "overlap_checked_available_instances": ("map", None, tuple((a.nid(n), UNIT) for n in self.seen_classes))}
        self.cx = a.box(a.struct(TI + "Context", **cx))
        return self.cx

    # -- what is asked
    def fresh(self, st):
        n = sum(1 for x in st.events if x[0] == "var")
        st.emit("var", n)
        return I(n, "usize")

    def forks(self, st, good, what):
        """the operation succeeds, or fails and is the last one"""
        out = [(st, ok(good))]
        if self.fail:
            s2 = st.fork()
            s2.emit("failed", what)
            out.append((s2, err(("sym", "error", ERR))))
        return out

    def recorded(self, st):
        v = self.e.load(st, *self.e.deref(st, self.cx))
        ut = fields(self.mir, fields(self.mir, v)["u_types"])
        r = {}
        for k in ("types", "schemes", "instantiations"):
            m = self.e.res(st, ut[k])
            r[k] = {} if m[0] != "map" else {ckey(self.e.res(st, c)): x for c, x in m[2]}
        return r

    def hook(self, e, st, c):
        d = strip_generics(c.d)
        for k, f in self.extra.items():
            if d.endswith(k):
                r = f(self, e, st, c)
                if r is not None:
                    return r
        last = d.rsplit("::", 1)[-1]
        if d == "std::convert::Into::into" and c.targs and c.targs[0][0] == "alias":
            n = idnum(e.res(st, c.args[0]))
            if n and n[1] in self.kinds:
                return [(st, self.construct(self.kinds[n[1]], n[1]))]
        if any(x[0] == "failed" for x in st.events) and (d.startswith((TI, U)) or last in ("new_app",)):
            if last in ("infer_expr", "infer_pattern", "unify", "unify_on", "put_context_constraint", "finalize_scope", "build_satisfaction") and "error" not in d:
                st.emit("after", last)
        if d == TI + "Context::infer_expr":
            x = e.through(st, c.args[2])
            n = idnum(fields(self.mir, x)["id"])
            if n and ("e", n[1]) in self.children:
                es = fields(self.mir, e.load(st, *e.deref(st, c.args[1])))
                sc = e.deref(st, es["scope"])
                rt = e.res(st, es["return_ty"])
                rec = self.recorded(st)
                sf = fields(self.mir, e.load(st, *sc))
                st.emit("infer", n[1], self.scope_key(st, sc), None if rt[3] == "None" else term(e, st, rt[4][0]), self.env(st, rec),
                        self.premise(st, sf["context_premise"]), self.gens_of(st, sf["scoped_gen_types"]))
                return self.forks(st, ("app", "ty", (("s", "e%d" % n[1]),), TYPE), "infer %d" % n[1])
            return None
        if d == TI + "Context::infer_pattern":
            x = e.through(st, c.args[2])
            n = idnum(fields(self.mir, x)["id"])
            if n and ("p", n[1]) in self.children:
                st.emit("pattern", n[1], self.scope_key(st, e.deref(st, c.args[1])))
                return self.forks(st, ("app", "ty", (("s", "p%d" % n[1]),), TYPE), "pattern %d" % n[1])
            return None
        if d == U + "types::Context::unify":
            a, b = (self.tterm(e, st, x) for x in c.args[1:3])
            seen = [v for x in st.events if x[0] == "unify" for t in x[1:] for v in unknowns(t)]
            st.emit("unify", a, b)
            for x, y in ((a, b), (b, a)):
                # an unknown that nothing was required of is equal to any term over unknowns
                if x[0] == "v" and x[1] not in seen and x[1] not in unknowns(y) and not opaque(y):
                    return [(st, ok(UNIT))]
            return self.forks(st, UNIT, "unify")
        if d == U + "types::Context::new_type_var":
            return [(st, ("app", "tyvar", (self.fresh(st), e.res(st, c.args[1])), TYPE))]
        if d == U + "types::Context::instantiate_gen":
            n = self.fresh(st)
            st.emit("instance", n[1], idnum(e.res(st, c.args[1])))
            g = idnum(e.res(st, c.args[1]))
            return [(st, ("app", "tyvar", (("s", (n[1], g)), e.res(st, c.args[2])), TYPE))]
        if d == U + "types::Context::resolve" or d.endswith("Resolve::resolve"):
            return [(st, e.res(st, c.args[1]))]
        if d.endswith("TypeBuilder::new_app") and c.targs and c.targs[0][0] == "adt" and c.targs[0][1] == U + "types::Context" or \
                d.endswith("::new_app") and "unification" in d:
            args = e.res(st, c.args[2])
            if args[0] != "arr":
                raise Bad("type arguments that are not known: %s" % str(args)[:300])
            return [(st, e.res(st, c.args[1]) if not args[1] else ("app", "tyapp", (e.res(st, c.args[1]), args), TYPE))]
        if d == U + "types::Context::subst":
            return [(st, ("app", "subst", (self.mapval(e, st, c.args[1]), e.res(st, c.args[2])), TYPE))]
        if last == "module" and "External" in d:
            n = e.res(st, c.args[1])
            return [(st, ("ref",) + e.new_cell(st, ("sym", "module:%d" % n[4][0][1], ("adt", "llrl::module::Module", ())))[1:])]
        if d.endswith(("InferredTypes::scheme", "InferredTypes::type_")) and self.external is not None:
            n = e.res(st, c.args[1])
            n = idnum(n) or idnum(e.res(st, n[4][0]))
            m = absint.show(e.through(st, c.args[0]))
            if n in self.external and m == "module:%d.inferred_types" % n[0]:
                return [(st, some(e.new_cell(st, self.external[n])))]
            raise Bad("asks %s of %s for %s" % (last, m, n))
        if last == "value_con_arity" and self.arities is not None:
            v = e.res(st, c.args[1])
            n = self.arities.get((idnum(v[4][0]) or (0, 0))[1], 0)
            return [(st, NONE if n is None else some(I(n, "u32")))]
        if last == "import" and "Import" in d:
            return self.do_import(e, st, c)
        if last == "export":
            return [(st, ("sym", "exported", ("adt", "llrl::ast::types::Type", ())))]
        if d == TI + "Context::finalize_scope" and "finalize_scope" not in self.analyse:
            v = e.res(st, c.args[2])
            f = fields(self.mir, v)
            q = e.res(st, c.args[3])
            if q[0] == "ref":
                q = e.through(st, q)
            o = e.res(st, c.args[4])
            outer = None if o[3] == "None" else self.scope_key(st, e.deref(st, o[4][0]))
            puts = tuple(sorted((self.constraint_term(st, fields(self.mir, x)["constraint"]) for x in seq(e, st, f["context_constraints"])), key=str))
            st.emit("final", level(e, st, f["level"]), self.varset(st, q), outer, self.premise(st, f["context_premise"]), puts)
            gens, cons = self.final
            a = self.a
            return self.forks(st, ("tup", (("arr", tuple(a.nid(g) for g in gens)), ("arr", tuple(cons)))), "finalize the scope")
        if d == U + "types::Context::get_vars" and self.quant is not None:
            t = term(e, st, c.args[1])
            st.emit("vars", t, level(e, st, c.args[2]))
            n = sum(1 for x in st.events if x[0] == "vars")
            return [(st, ("map", None, tuple((self.var(x), UNIT) for x in self.quant[n - 1])))]
        if d == U + "types::Context::default_vars":
            st.emit("default", term(e, st, c.args[1]), term(e, st, c.args[2]))
            return self.forks(st, UNIT, "default the unknowns")
        if d == U + "types::Context::equal_on_subst":
            m = tuple(sorted(((k, term(e, st, x)) for k, x in genmap(e, st, c.args[1])), key=str))
            x = (m, term(e, st, c.args[2]), term(e, st, c.args[3]))
            st.emit("equal", *x)
            s2 = st.fork()
            s2.emit("failed", "equality of types")
            return [(st, B(True)), (s2, B(False))]
        if d == TI + "Context::build_satisfaction" and "build_satisfaction" not in self.analyse:
            k = self.constraint_term(st, c.args[2])
            n = sum(1 for x in st.events if x[0] == "satisfy") if self.solver else k[0][1] % 100
            lax = any(t == ("tuple", ()) for t in c.targs)
            st.emit("satisfy", k, self.premise(st, e.through(st, c.args[1])), e.res(st, c.args[3])) if not self.solver else \
                st.emit("satisfy", k, self.premise(st, e.through(st, c.args[1])), e.res(st, c.args[3]), lax, 900 + n)
            r = self.a.enum(UN + "Satisfaction", "ByPremise", self.a.struct(UN + "SatisfactionByPremise", id=self.a.nid(900 + n), path=("arr", ())))
            if lax:
                # not at this scope; or for a reason no enclosing scope can change
                s3 = st.fork()
                s3.emit("deferred", 900 + n)
                s4 = st.fork()
                s4.emit("failed", "satisfy a constraint")
                why = lambda s, *v: (s, err(e.new_cell(s, self.a.enum(ERRORS, *v))))
                return [(st, ok(r)), why(s3, "BuildSatisfactionFailedAtThisScope"), why(s4, "OverlappingInstances", ("sym", "overlapping", ("adt", "std::collections::HashSet", ())))]
            return self.forks(st, r, "satisfy a constraint")
        if d == TI + "Context::ensure_overlap_checked" and "ensure_overlap_checked" not in self.analyse:
            st.emit("overlap", idnum(e.res(st, c.args[1])))
            return self.forks(st, UNIT, "check overlap")
        if d == U + "types::Context::get_kind_id" and "get_kind_id" not in self.analyse:
            return [(st, ("sym", "kind", ("adt", "llrl::interning::Interned", ())))]
        if d == U + "types::Context::compute_deepest_level" and self.facts is not None:
            t = term(e, st, c.args[1])
            return [(st, self.lvl(self.facts[t][0]))]
        if d == U + "types::Context::collect_vars" and self.facts is not None:
            t = term(e, st, c.args[1])
            lo = level(e, st, c.args[2])
            cell, p = e.deref(st, c.args[3])
            m = e.load(st, cell, p)
            for n, lv in self.facts[t][1]:
                if lv >= lo and (self.var(n), UNIT) not in m[2]:
                    m = ("map", m[1], tuple(sorted(m[2] + ((self.var(n), UNIT),), key=lambda x: x[0][4][0][1])))
            e.store(st, cell, p, m)
            return [(st, UNIT)]
        if d == U + "types::Context::equal":
            x = tuple(self.tterm(e, st, y) for y in c.args[1:3])
            if x[0] == x[1]:
                return [(st, B(True))]
            for y in st.events:
                if y[0] == "same" and y[1:3] == x:
                    return [(st, B(y[3]))]
            s2 = st.fork()
            st.emit("same", *x, True)
            s2.emit("same", *x, False)
            return [(st, B(True)), (s2, B(False))]
        if d in (U + "types::Context::match_to_right", U + "types::Context::match_to_right_on"):
            x = tuple(self.tterm(e, st, y) for y in c.args[-2:])
            # the unknowns that stay as they are: those given, or those of the right side
            kept = self.varset(st, e.through(st, c.args[1])) if d.endswith("_on") else tuple(n for n, _ in (self.facts or {}).get(x[1], (0, ()))[1])
            s2 = st.fork()
            st.emit("match", *x, True, kept)
            s2.emit("match", *x, False, kept)
            return [(st, ok(UNIT)), (s2, err(("sym", "mismatch", ERR)))]
        if d.endswith("KindEnv::put"):
            st.emit("kind", idnum(e.res(st, c.args[1])), absint.show(e.res(st, c.args[2])))
            return [(st, UNIT)]
        if d == U + "types::Context::get_kind":
            k = self.tterm(e, st, c.args[1])
            return [(st, e.new_cell(st, ("app", "kind", (("s", str(k)),), ("adt", "llrl::ast::kind::Kind", ()))))]
        if d.endswith("SymbolMap::get"):         # every construct has a name
            return [(st, some(("sym", "named:%s" % str(e.res(st, c.args[1]))[:200], ("ref", 0, ("adt", "llrl::ast::symbol::Symbol", ())))))]
        if d.endswith("SymbolMap::set"):
            return [(st, UNIT)]
        if d.endswith("NodeIdGenerator::generate"):
            n = sum(1 for x in st.events if x[0] == "newid")
            st.emit("newid", 800 + n)
            return [(st, self.a.nid(800 + n))]
        return iomodel.hooks(e, st, c)

    analyse = ()
    entry = solver = False

    def var(self, n):
        a = self.mir.adts[U + "Var"]
        f = [I(n, "u32") if x["n"] not in ("_phantom", "phantom") else None for x in a["variants"][0]["fields"]]
        fs = tuple(x if x is not None else ("adt", "std::marker::PhantomData", 0, "", ()) for x in f)
        return ("adt", U + "Var", 0, "", fs)

    def tterm(self, e, st, v):
        """a type, or one of the numbered unknowns"""
        v = e.res(st, v)
        if v[0] == "ref":
            v = e.through(st, v)
        if v[0] == "adt" and v[1] == U + "Var":
            return ("n", v[4][0][1])
        return term(e, st, v)

    def varset(self, st, v):
        if v[0] != "map" or v[1] is not None:
            raise Bad("a set of unknowns that is not known: %s" % str(v)[:100])
        return tuple(sorted(self.e.res(st, k)[4][0][1] for k, _ in v[2]))

    def premise(self, st, v):
        """constraints assumed: (class, identifier, path of superclasses, arguments)"""
        e = self.e
        m = e.res(st, fields(self.mir, e.res(st, v))["class_constraints"])
        if m[0] != "map" or m[1] is not None:
            raise Bad("a premise that is not known")
        r = []
        for k, cs in m[2]:
            for x in seq(e, st, cs):
                f = fields(self.mir, x)
                r.append((idnum(e.res(st, k)), idnum(e.res(st, f["id"])), tuple(idnum(y) for y in seq(e, st, f["path"])), tuple(term(e, st, y) for y in seq(e, st, f["class_args"]))))
        return tuple(sorted(r, key=str))

    def gens_of(self, st, v):
        return tuple(sorted(((k, term(self.e, st, x)) for k, x in genmap(self.e, st, v)), key=str))

    def mapval(self, e, st, v):
        v = e.through(st, v)
        return v if v[0] in ("map", "sym") else e.res(st, v)

    def do_import(self, e, st, c):
        v = e.through(st, c.args[1])
        if is_term(v) and v[-1] == AST_TYPE:
            return [(st, ("app", "import", (("s", v[1] if v[0] == "sym" else absint.show(v)),), TYPE))]
        if v[0] == "adt" and v[1] == AST_TYPE[1]:
            return [(st, self.imported(e, st, v))]
        return None

    def imported(self, e, st, v):
        v = e.through(st, v) if e.res(st, v)[0] == "ref" else e.res(st, v)
        if v[0] == "sym":
            return ("app", "import", (("s", v[1]),), TYPE)
        a = self.a
        if v[3] == "Con":
            return a.enum(U + "types::Type", "Con", v[4][0])
        if v[3] == "Gen":
            return a.enum(U + "types::Type", "Gen", v[4][0], self.lvl(0))
        if v[3] == "App":
            return ("app", "tyapp", (self.imported(e, st, v[4][0]), ("arr", tuple(self.imported(e, st, x) for x in seq(e, st, v[4][1])))), TYPE)
        raise Bad("an annotation that is not resolved: %s" % v[3])

    def scope_key(self, st, r):
        v = fields(self.mir, self.e.load(st, *r))
        n = self.scopes.get(r[0]) if not r[1] else None
        return n or "inner@%d" % level(self.e, st, v["level"])

    def env(self, st, rec):
        r = {}
        for k, v in rec["types"].items():
            r[k] = term(self.e, st, v)
        for k, v in rec["schemes"].items():
            r[k] = self.scheme_term(st, v)
        return tuple(sorted(r.items(), key=str))

    def scheme_term(self, st, v):
        e = self.e
        f = fields(self.mir, e.res(st, v))
        return ("scheme", tuple(idnum(e.res(st, g)) for g in seq(e, st, f["ty_params"])), tuple(self.constraint_term(st, x) for x in seq(e, st, f["s_params"])), term(e, st, f["body"]))

    def constraint_term(self, st, v):
        e = self.e
        f = fields(self.mir, e.through(st, v))
        rep = e.res(st, f["rep"])
        return (idnum(e.res(st, f["id"])), idnum(e.res(st, rep[4][0])), tuple(term(e, st, x) for x in seq(e, st, rep[4][1])))


def seq(e, st, v):
    v = e.res(st, v)
    if v[0] == "ref":
        v = e.through(st, v)
    if v[0] != "arr":
        raise Bad("a sequence that is not known: %s" % str(v)[:100])
    return [e.res(st, x) for x in v[1]]


def ckey(v):
    if v[0] == "adt" and v[4]:
        n = idnum(v[4][0]) or idnum(v)
        if n:
            return "%s#%d" % (v[3] or v[1].split("::")[-1], n[1])
    raise Bad("a construct that is not known: %s" % str(v)[:100])


# ---------------------------------------------------------------- what a path did, in a form that can be compared

class Path:
    """one path of the analysed code through the form"""

    def __init__(self, case, st, v):
        self.case, self.st, self.v = case, st, v
        self.ev = list(st.events)
        self.failed = [x[1] for x in self.ev if x[0] == "failed"]
        self.after = [x[1] for x in self.ev if x[0] == "after"]

    def kind(self):
        v = self.v
        if v[0] == "adt" and v[3] in ("Ok", "Err") and v[1].endswith("Result"):
            return v[3]
        return "value"


class Rule:
    """what the typing rule asks; terms over ("k", child), unknowns written ("v", name, level)"""

    def __init__(self, eqs=(), result=None, types=None, schemes=None, insts=None, children=None, puts=None, reject=False, asks=None, finals=None, assume=None):
        self.eqs, self.result = list(eqs), result
        self.finals = finals        # [(level, unknowns to quantify, outer scope, premise, parts inferred by then, number of equations by then)]
        self.assume = assume or {}  # part -> (premise, generics in scope)
        self.types, self.schemes, self.insts = types or {}, schemes or {}, insts or {}
        self.children, self.puts, self.reject = children or {}, puts or {}, reject
        self.asks = asks or {}      # kind of event -> what is asked


def V(n, lv=None):
    return ("v", n, lv)


def con(n):
    return ("con", n)


def ap(f, *xs):
    return ("ap", f, tuple(xs))


class Canonical:
    """rule or path, made comparable: equations solved, unknowns named by first occurrence, levels no deeper than the form's"""

    def __init__(self, eqs, clip):
        self.q = Eqs()
        for a, b in eqs:
            self.q.eq(a, b)
        self.c = Canon(self.q)
        self.clip = clip

    def t(self, x):
        if x is None:
            return None
        return self.lv(self.c(x))

    def lv(self, t):
        if t[0] == "v":
            l = self.clip if t[2] is None or t[2] > self.clip else t[2]
            return ("v", t[1], l)
        if t[0] == "ap":
            return ("ap", self.lv(t[1]), tuple(self.lv(x) for x in t[2]))
        if t[0] == "subst":
            return ("subst", tuple((k, self.lv(x)) for k, x in t[1]), self.lv(t[2]))
        return t

    def cons(self, c):
        return (c[0], c[1], tuple(self.t(x) for x in c[2]))

    def scheme(self, s):
        return ("scheme", s[1], tuple(self.cons(c) for c in s[2]), self.t(s[3]))

    def any(self, x):
        if isinstance(x, tuple) and x and x[0] == "scheme":
            return self.scheme(x)
        if isinstance(x, tuple) and x and x[0] == "prem":
            return self.prem(x[1])
        if isinstance(x, tuple) and x and x[0] == "gens":
            return tuple(sorted(((k, self.t(t)) for k, t in x[1]), key=str))
        return self.t(x)

    def prem(self, p):
        return tuple(sorted(((a, b, c, tuple(self.t(x) for x in d)) for a, b, c, d in p), key=str))

    def sat(self, s):
        if s[0] == "put":
            return ("put", s[1], self.cons(s[2]))
        if s[0] == "inst":
            return ("inst", s[1], tuple(self.t(x) for x in s[2]), tuple(self.sat(x) for x in s[3]))
        return s

    def obl(self):
        r = []
        for a, b in self.q.s.get(("obl",), ()):
            a, b = self.t(a), self.t(b)
            if a != b:
                r.append(tuple(sorted((a, b), key=str)))
        return tuple(sorted(set(r), key=str))


def path_sat(case, st, v, puts):
    """a satisfaction: by a constraint put on a scope, by a premise, by an instance"""
    e = case.e
    v = e.res(st, v)
    if v[0] != "adt":
        raise Bad("a satisfaction that is not known: %s" % str(v)[:100])
    if v[3] == "Var":
        k = rc_key(e, st, v[4][0])
        if k in puts:
            return ("put",) + puts[k]
        return ("loose",)
    if v[3] == "ByPremise":
        f = fields(case.mir, e.res(st, v[4][0]))
        return ("premise", idnum(e.res(st, f["id"])), tuple(idnum(x) for x in seq(e, st, f["path"])))
    if v[3] == "ByInstance":
        f = fields(case.mir, e.res(st, v[4][0]))
        i = path_inst(case, st, f["instantiation"], puts)
        return ("inst", idnum(e.res(st, f["use_"])), i[0], i[1])
    raise Bad("a satisfaction of an unknown form")


def rc_key(e, st, v):
    v = e.res(st, v)
    while v[0] == "adt" and len(v[4]) >= 1:
        v = e.res(st, v[4][0])
    if v[0] == "ref":
        return v[1]
    raise Bad("a shared cell that is not known: %s" % str(v)[:100])


def path_inst(case, st, v, puts):
    e = case.e
    f = fields(case.mir, e.res(st, v))
    return tuple(term(e, st, x) for x in seq(e, st, f["ty_args"])), tuple(path_sat(case, st, x, puts) for x in seq(e, st, f["s_args"]))


def path_puts(case, st):
    """constraints put on each scope that is a cell of its own: cell of the satisfaction -> (scope, constraint)"""
    r, by = {}, {}
    for cell, name in case.scopes.items():
        f = fields(case.mir, case.e.load(st, cell, ()))
        for x in seq(case.e, st, f["context_constraints"]):
            g = fields(case.mir, x)
            t = case.constraint_term(st, g["constraint"])
            k = rc_key(case.e, st, g["var"])
            r[k] = (name, t)
            by.setdefault(name, []).append(t)
    return r, by


def compare(case, outs, rule, where):
    """differences between the paths of the code and the rule"""
    bad = []
    good = 0
    paths = [Path(case, s, v) for s, v in outs]
    if not paths:
        return ["%s: no path returns" % where]
    for p in paths:
        if p.failed:
            if p.kind() != "Err":
                bad.append("%s: '%s' fails and the form is accepted all the same" % (where, p.failed[0]))
            elif p.after:
                bad.append("%s: %s is still asked after '%s' failed" % (where, p.after[0], p.failed[0]))
            continue
        if rule.reject:
            if p.kind() != "Err":
                bad.append("%s: accepted, must be rejected" % where)
            else:
                good += 1
            continue
        if p.kind() == "Err":
            bad.append("%s: rejected although nothing failed" % where)
            continue
        good += 1
        bad += one(case, p, rule, where)
    if not good and not bad:
        bad.append("%s: never %s" % (where, "rejected" if rule.reject else "accepted"))
    return sorted(set(bad))


def one(case, p, rule, where):
    e, st = case.e, p.st
    bad = []
    clip = case.clip
    pe = [(x[1], x[2]) for x in p.ev if x[0] == "unify"]
    pc, rc_ = Canonical(pe, clip), Canonical(rule.eqs, clip)
    if pc.q.bad:
        return ["%s: the constraints are circular" % where]
    # each part once, in the scope and with the return type of the rule; what the part can see is there
    kids = {}
    for x in p.ev:
        if x[0] == "infer":
            kids.setdefault(("e", x[1]), []).append((x[2], x[3], dict(x[4]), x[5], x[6]))
        elif x[0] == "pattern":
            kids.setdefault(("p", x[1]), []).append((x[2], None, {}, (), ()))
    for k in sorted(set(rule.children) | set(kids)):
        n = len(kids.get(k, ()))
        want = 1 if k in rule.children else 0
        if n != want:
            bad.append("%s: part %s%d is inferred %d times, the rule asks %d" % (where, k[0], k[1], n, want))
    if bad:
        return bad
    v = p.v[4][0] if p.kind() == "Ok" else p.v
    pairs = []
    if rule.result is not None:
        pairs.append(("type of the form", term(e, st, v), rule.result))
    rec = case.recorded(st)
    puts, by = path_puts(case, st)
    start = case.start
    for what, got, want in (("types", {k: term(e, st, x) for k, x in rec["types"].items()}, {**start["types"], **rule.types}),
                            ("schemes", {k: case.scheme_term(st, x) for k, x in rec["schemes"].items()}, {**start["schemes"], **rule.schemes})):
        for k in sorted(set(got) | set(want)):
            if k not in got or k not in want:
                bad.append("%s: %s of %s is %s" % (where, what[:-1], k, "not recorded" if k not in got else "recorded, the rule has none"))
                continue
            pairs.append(("%s recorded for %s" % (what[:-1], k), got[k], want[k]))
    for k in sorted(rule.children):
        sc, rt, env = rule.children[k]
        gs, gr, genv, gp, gg = kids[k][0]
        wp, wg = rule.assume.get(k, (None, None))
        if wp is not None:
            pairs.append(("premise of part %s%d" % k, ("prem", gp), ("prem", wp)))
            pairs.append(("type parameters in scope of part %s%d" % k, ("gens", gg), ("gens", wg)))
        if gs != sc:
            bad.append("%s: part %s%d is inferred in scope %s, the rule has %s" % (where, k[0], k[1], gs, sc))
        if k[0] == "e":
            if (rt is None) != (gr is None):
                bad.append("%s: part %s%d %s be left by return" % (where, k[0], k[1], "can" if gr is not None else "cannot"))
            elif rt is not None:
                pairs.append(("type returned from part %s%d" % k, gr, rt))
            for n in env:
                if n not in genv:
                    bad.append("%s: part %s%d is inferred before %s has a type" % (where, k[0], k[1], n))
                else:
                    pairs.append(("what part %s%d sees of %s" % (k + (n,)), genv[n], env[n]))
    gi = {k: path_inst(case, st, x, puts) for k, x in rec["instantiations"].items()}
    wi = {**start["insts"], **rule.insts}
    for k in sorted(set(gi) | set(wi)):
        if k not in gi or k not in wi:
            bad.append("%s: instantiation of %s is %s" % (where, k, "not recorded" if k not in gi else "recorded, the rule has none"))
            continue
        if len(gi[k][0]) != len(wi[k][0]) or len(gi[k][1]) != len(wi[k][1]):
            bad.append("%s: instantiation of %s has %d types and %d satisfactions, the rule has %d and %d" % (
                where, k, len(gi[k][0]), len(gi[k][1]), len(wi[k][0]), len(wi[k][1])))
            continue
        for i, (x, y) in enumerate(zip(gi[k][0], wi[k][0])):
            pairs.append(("type argument %d of %s" % (i, k), x, y))
        for i, (x, y) in enumerate(zip(gi[k][1], wi[k][1])):
            pairs.append(("satisfaction %d of %s" % (i, k), ("sat", x), ("sat", y)))
    for what, x, y in pairs:
        if isinstance(x, tuple) and x and x[0] == "sat":
            a, b = pc.sat(x[1]), rc_.sat(y[1])
        else:
            a, b = pc.any(x), rc_.any(y)
        if a != b:
            bad.append("%s: %s is %s, the rule has %s" % (where, what, show(a), show(b)))
    for n in sorted(set(by) | set(rule.puts)):
        a = sorted((pc.cons(x) for x in by.get(n, ())), key=str)
        b = sorted((rc_.cons(x) for x in rule.puts.get(n, ())), key=str)
        if a != b:
            bad.append("%s: constraints put on scope %s are %s, the rule has %s" % (where, n, show(a), show(b)))
    if pc.obl() != rc_.obl():
        x, y = set(pc.obl()), set(rc_.obl())
        if y - x:
            bad.append("%s: %s is not required" % (where, " = ".join(show(t) for t in sorted(y - x, key=str)[0])))
        else:
            bad.append("%s: %s is required, the rule does not ask it" % (where, " = ".join(show(t) for t in sorted(x - y, key=str)[0])))
    # parts of an unknown type that the rule leaves alone, and the code ties together
    for k in sorted(rule.children):
        n = "%s%d" % k
        a, b = pc.t(("v", n, None)), rc_.t(("v", n, None))
        if a != b:
            bad.append("%s: part %s gets the type %s, the rule has %s" % (where, n, show(a), show(b)))
    bad += finals(case, p, rule, where) if rule.finals is not None else []
    for what in sorted(set(rule.asks) | {x[0] for x in p.ev if x[0] in ("default", "equal", "satisfy", "overlap", "vars")}):
        g = [ask(pc, x) for x in p.ev if x[0] == what]
        w = [ask(rc_, (what,) + x) for x in rule.asks.get(what, ())]
        for x in w:
            if x not in g:
                bad.append("%s: %s of %s is not asked" % (where, what, show(x[1:])))
        if what not in ("default", "overlap"):
            for x in g:
                if x not in w:
                    bad.append("%s: %s of %s is asked, the rule does not" % (where, what, show(x[1:])))
    return bad


def show(t):
    if isinstance(t, tuple) and t:
        if t[0] == "v":
            return "?%s%s" % (t[1], "" if t[2] is None else "@%d" % t[2])
        if t[0] in ("con", "k"):
            return str(t[1])
        if t[0] == "gen":
            return "gen%s%s" % (t[1][1] if t[1] else "", "" if t[2] in (None, 0) else "@%d" % t[2])
        if t[0] == "ap":
            return "(%s)" % " ".join([show(t[1])] + [show(x) for x in t[2]])
        if t[0] == "subst":
            return "%s[%s]" % (show(t[2]), ", ".join("%s:=%s" % (k, show(x)) for k, x in t[1]))
    return str(t)[:200]


def ask(c, x):
    if x[0] == "default":
        return (x[0], c.t(x[1]), c.t(x[2]))
    if x[0] == "vars":
        return (x[0], c.t(x[1]), x[2])
    if x[0] == "equal":
        return (x[0], tuple((k, c.t(t)) for k, t in x[1]), c.t(x[2]), c.t(x[3]))
    if x[0] == "satisfy":
        return (x[0], c.cons(x[1]), c.prem(x[2]), x[3])
    return x


def finals(case, p, rule, where):
    """scopes are closed when everything in them is known, with what they were opened with"""
    bad = []
    got = [i for i, x in enumerate(p.ev) if x[0] == "final"]
    want = list(rule.finals)
    if len(got) != len(want):
        return ["%s: %d scopes are closed, the rule has %d" % (where, len(got), len(want))]
    for i in got:
        x = p.ev[i]
        pc = Canonical([(y[1], y[2]) for y in p.ev[:i] if y[0] == "unify"], case.clip)
        kids = {"%s%d" % ("e" if y[0] == "infer" else "p", y[1]) for y in p.ev[:i] if y[0] in ("infer", "pattern")}
        why = None
        for w in want:
            lv, q, outer, prem, need, neq = w
            rc_ = Canonical(rule.eqs[:neq] if isinstance(neq, int) else neq, case.clip)
            if (x[1], x[2], x[3]) != (lv, q, outer):
                why = why or "closed at level %d over %s in %s, the rule has level %d over %s in %s" % (x[1], x[2], x[3], lv, q, outer)
            elif pc.prem(x[4]) != rc_.prem(prem):
                why = "assumes %s, the rule has %s" % (show(pc.prem(x[4])), show(rc_.prem(prem)))
            elif x[5]:
                why = "has constraints of its own"
            elif not set(need) <= kids:
                why = "is closed before %s is inferred" % sorted(set(need) - kids)[0]
            else:
                t = [("v", n, None) for n in need]
                a, b = [pc.t(y) for y in t], [rc_.t(y) for y in t]
                if a != b or not set(rc_.obl()) <= set(pc.obl()):
                    why = "is closed before the type of its body is required to be the declared one"
                    continue
                want.remove(w)
                why = None
                break
        else:
            bad.append("%s: a scope %s" % (where, why))
    return bad
