"""Imports and exports: what a module sees of others and what it gives, statement by statement."""
import itertools
from typerules import *
from typerules import Case
from scoping import SCO, LOC, OK, failed, finish, _root
import reserved


def template(v):
    try:
        return reserved.template(v)
    except reserved.Unread as x:
        raise Bad(str(x))


SE = "llrl::module::sema::"
PATH = ("adt", "llrl::path::Path", ())
SEXP = ("adt", "llrl::sexp::Sexp", ())
MODULE = "llrl::module::Module"
EXPORTS = "llrl::module::meaning::Exports"


class Ports(Case):
    """a module (1) of some statements, and others whose exports are known"""
    def __init__(self, mir):
        super().__init__(mir)
        self.stmts = {}     # statement -> ("import", file, targets) | ("export", targets) | None
        self.targets = {}   # target -> (name, new name | None) | None
        self.modules = {}   # path -> reference to its module
        self.ids = {}       # number of a module -> reference to it

    def syntax(self, what):
        return [x for x in self.mir.adts if x.startswith("llrl::syntax::") and x.endswith("::" + what)][0]

    def text(self, e, st, v):
        v = e.snap(st, e.through(st, v))
        return v if v[0] == "s" else ("s", template(v))

    def hook(self, e, st, c):
        d = strip_generics(c.d)
        if d.endswith("Sexp::matches") and c.targs:
            what = [t for t in c.targs if t[0] == "adt"][-1][1].split("::")[-1]
            v = e.res(st, e.through(st, c.args[0]))
            if v[0] != "sym":
                raise Bad("a statement that is not known")
            s = st.fork()
            loc = ("sym", "place of " + v[1], ("?",))
            err = [(s, ("adt", "std::result::Result", 1, "Err", (("sym", "no " + what, ("adt", "llrl::sexp::matcher::Error", ())),)))]
            if what in ("Import", "Export"):
                x = self.stmts[v[1]]
                if x is None or x[0] != what.lower():
                    return err
                kw = {"path": ("s", x[1])} if what == "Import" else {}
                ts = e.new_cell(s, ("arr", tuple(("sym", t, SEXP) for t in x[-1])))
                return [(s, ("adt", "std::result::Result", 0, "Ok", (self.a.struct(self.syntax(what), loc=loc, targets=ts, **kw),)))]
            if what == "PortTarget":
                x = self.targets[v[1]]
                if x is None:
                    return err
                nm = lambda t: self.a.struct(self.syntax("Name"), loc=loc, sym=("s", t))
                return [(s, ("adt", "std::result::Result", 0, "Ok", (self.a.struct(self.syntax("PortTarget"), loc=loc, name=NONE if x[1] is None else some(nm(x[1])), target=nm(x[0])),)))]
            raise Bad("a statement is taken for a %s" % what)
        if d in ("llrl::path::Path::builtin", "llrl::path::Path::std"):
            return [(st, ("sym", "path " + d.split("::")[-1], PATH))]
        if d.split("::")[-1] in ("eq", "ne") and len(c.args) == 2:
            a, b = (e.res(st, e.through(st, x)) for x in c.args)
            if a[0] == b[0] == "sym" and a[1].startswith("path ") and b[1].startswith("path "):
                return [(st, I(int((a[1] == b[1]) == (d.split("::")[-1] == "eq")), "bool"))]
        if d.endswith("External::find_module"):
            v = e.res(st, e.through(st, c.args[1]))
            m = self.modules.get(v[1])
            return [(st, NONE if m is None else some(m))]
        if d.endswith("External::module"):
            return [(st, self.ids[idn(e.res(st, c.args[1]))])]
        if d == "llrl::module::meaning::AvailableInstances::add":
            s = st.fork()
            v = e.res(st, e.through(st, c.args[1]))
            s.emit("available", idnum(fields(self.mir, v)["id"]))
            return [(s, ("tup", ()))]
        if d.endswith("fmt::format") or d.endswith("hint::must_use"):
            v = e.snap(st, e.res(st, c.args[0]))
            return [(st, v if v[0] == "s" else ("s", template(("app", "fmt::format", (v,), ("?",)))))]
        if d.startswith("llrl::module::error::Error::"):
            s = st.fork()
            s.emit("error", d.split("::")[-1])
            return [(s, ("sym", "error " + d.split("::")[-1], ("adt", ERRORS, ())))]
        return None

    def exports(self, names):
        return self.a.struct(EXPORTS, map=self.located(names))

    def located(self, names):
        a = self.a
        return ("map", None, tuple((("s", x), a.struct(LOC, loc=("sym", "place of " + x, ("?",)), construct=a.enum(CON_, k, a.nid(n, m)))) for x, (k, m, n) in names.items()))

    def module(self, number, path=None, exports=(), top=(), instances=()):
        a = self.a
        kw = {f["n"]: ("sym", "module %d %s" % (number, f["n"]), ("?",)) for f in self.mir.adts[MODULE]["variants"][0]["fields"]}
        r = self.root_of(instance_cons=[a.struct(DE + "InstanceCon", id=a.nid(n, number), ty_params=("arr", ()), s_params=("arr", ()), target=("sym", "target", ("?",)), methods=("arr", ())) for n in instances])
        f = fields(self.mir, r)
        f["id"] = a.nid(0, number)
        kw["ast_root"] = a.struct("llrl::ast::root::Root", **f)
        kw["top_level"] = a.struct(SCO + "TopLevel", map=self.located(dict(top)))
        kw["exports"] = self.exports(dict(exports))
        if path:
            kw["path"] = ("sym", "path " + path, PATH)
        m = a.box(a.struct(MODULE, **kw))
        self.ids[number] = m
        if path:
            self.modules["path " + path] = m
        return m

    def run(self):
        p, args, targs = self.root
        return self.e.call_fn(self.st, p, args, targs)


CON_ = "llrl::ast::construct::Construct"
Ports.root_of = _root


def idn(v):
    while v[0] == "adt" and v[4]:
        v = v[4][0]
    return v[1] if v[0] == "i" else None


def names_of(c, m):
    """name -> (kind, module, number)"""
    if m[0] != "map" or m[1] is not None:
        raise Bad("names that are not known: %s" % str(m)[:100])
    out = {}
    for k, v in m[2]:
        if k[0] != "s":
            k = ("s", template(k))
        con = fields(c.mir, v)["construct"]
        out[k[1]] = (con[3],) + idnum(con[4][0])
    return out


# -- what the forms of targets mean
def wild(p):
    if p == "_":
        return ("", "")
    if p.startswith("_"):
        return ("", p[1:])
    if p.endswith("_"):
        return (p[:-1], "")
    return None


def ported(have, targets):
    """[(name, what)] the targets bring from these names, None if one of them is wrong"""
    out = []
    for t in targets:
        if t is None:
            return None
        src, name = t
        w = wild(src)
        if w is None:
            if src not in have:
                return None
            out.append((name or src, have[src]))
            continue
        to = w if name is None else wild(name)
        if to is None:
            return None
        for x, v in have.items():
            if x.startswith(w[0]) and x.endswith(w[1]) and (w == ("", "") or len(x) > len(w[0]) + len(w[1])):
                out.append((to[0] + x[len(w[0]):len(x) - len(w[1])] + to[1], v))
    return out


def together(start, ports):
    """the names with those brought in; None if a name is two things"""
    out = dict(start)
    for x, v in ports:
        if out.get(x, v) != v:
            return None
        out[x] = v
    return out


F = lambda n, m=2: ("Function", m, n)
HAVE = {"a": F(1), "ab": F(2), "xa": F(3), "x": F(4), "é": F(5), "éa": F(6), "aé": F(7), "b/": F(8), "a_b": F(9)}
TARGETS = [("a", None), ("a", "n"), ("a", "x"), ("nothing", None), ("nothing", "a"), ("_", None), ("_", "p_"), ("_", "_p"), ("_", "n"), ("a_", None), ("_a", None), ("a_", "_"), ("a_", "_p"), ("_a", "q_"), ("_a", "_"),
           ("x_", "y_"), ("é_", None), ("_é", "_e"), ("é_", "e_"), ("no_", None), ("_", "_"), ("a_", "n"), ("a_b", None), ("a_b", "c_d"), ("xa_", None), ("_xa", None), ("ab_", "ab_"), ("a", "_"), ("a", "b_"), ("__", None), ("_a", "é_")]
LISTS = [[t] for t in TARGETS] + [[]] + [[a, b] for a, b in ((("a", None), ("a", None)), (("a", None), ("ab", "a")), (("a", "n"), ("x", "n")), (("a", "n"), ("a", "m")), (("_", None), ("a", None)), (("a", "x"), ("_", None)), (("b/", "ab"), ("a_", None)), (("_", None), ("a", "x")), (("_", None), ("_", "p_")),
                                                              (("a_", None), ("_a", None)), (("a", None), ("nothing", None)), (("a", None), None), (None, ("a", None)), (("_a", "a_"), ("ab", None)))] + [[None]]


def put(c, i, kind, targets, *more):
    s = "statement %d" % i
    ts = []
    for j, t in enumerate(targets):
        n = "target %d.%d" % (i, j)
        c.targets[n] = t
        ts.append(n)
    c.stmts[s] = (kind,) + more + (tuple(ts),)
    return s


def code_of(c, stmts):
    a = c.a
    return a.box(a.struct("llrl::sexp::Ss", loc=("sym", "place of the code", ("?",)), ss=("arr", tuple(("sym", s, SEXP) for s in stmts))))


def import_case(mir, imports, std=None, me="me", top=None, inst=()):
    """imports: [(path, targets)], files of these paths: exports by path; std: the names of it, if they come by themselves"""
    exports = {"other": HAVE, "second": {"a": F(1), "s": F(1, 3), "ab": F(2, 3)}, "with instances": {"i": ("InstanceCon", 4, 10), "j": ("InstanceCon", 5, 11), "f": F(1, 4)}}
    number = {"builtin": 0, "other": 2, "second": 3, "with instances": 4, "std": 6}
    top = {} if top is None else top

    def build():
        c = Ports(mir)
        a = c.a
        for p, have in exports.items():
            c.module(number[p], p, have, instances=(10,) if p == "with instances" else ())
        c.module(5, None, instances=(11,))
        if std is not None:
            c.module(6, "std", std)
        m = c.module(1, None, top=top)
        st = [put(c, i, "import", ts, "file " + p) if p else None for i, (p, ts) in enumerate(imports)]
        for i, s in enumerate(st):
            if s is None:
                st[i] = "statement %d" % i
                c.stmts[st[i]] = None
        f = {x["n"]: ("sym", "source " + x["n"], ("?",)) for x in mir.adts["llrl::source::Source"]["variants"][0]["fields"]}
        f.update(path=("sym", "path " + me, PATH), implicit_std=I(int(std is not None), "bool"), dependencies=("map", None, tuple((("s", "file " + p), ("sym", "path " + p, PATH)) for p in exports)))
        c.root = (SE + "importer::run", [m, code_of(c, st), a.box(a.struct("llrl::source::Source", **f)), a.box(("sym", "external", ("?",)))], (("adt", "$External", ()),))
        want = dict(top)
        for p, ts in imports:
            if p and want is not None:
                got = ported(exports[p], ts)
                want = None if got is None else together(want, got)
        if want is not None and std is not None:
            want = dict(std, **want)
        init = ([0] if me != "builtin" else []) + [number[p] for p, _ in imports if p] + ([6] if std is not None else [])

        def rule(s, r, say):
            if failed(r) != (want is None):
                return say("accepted" if want is None else "refused")
            if want is None:
                return
            v = fields(mir, c.e.res(s, c.e.load(s, m[1], m[2])))
            got = names_of(c, fields(mir, c.e.res(s, v["top_level"]))["map"])
            for x in sorted(set(got) | set(want)):
                if got.get(x) != want.get(x):
                    say("%s is %s instead of %s" % (x, got.get(x, "not seen"), want.get(x, "not seen")))
            done = []
            for x in fields(mir, c.e.res(s, v["ast_root"]))["init_expressions"][1]:
                x = c.e.res(s, x)
                if x[3] != "EnsureInitialized":
                    return say("an expression is evaluated")
                done.append(idn(x[4][0]))
            if done != init:
                say("modules %s are initialized instead of %s" % (done, init))
            av = sorted(x[1] for x in s.events if x[0] == "available")
            if av != sorted((k, n) for kind, k, n in want.values() if kind == "InstanceCon"):
                say("the instances %s are available" % av)
        return c, rule
    return build


def imports(mir):
    g = []

    def txt(ts):
        return " ".join("nonsense" if t is None else t[0] if t[1] is None else "(%s %s)" % (t[1], t[0]) for t in ts) or "nothing"
    for ts in LISTS:
        g.append(("import of " + txt(ts), import_case(mir, [("other", ts)])))
    two = [[("a", None)], [("_", None)], [("ab", None)], [("s", "a")], [("s", None)], [("a", "ab")]]
    for x, y in itertools.product(two[:3], two):
        g.append(("import of %s, and of %s from another" % (txt(x), txt(y)), import_case(mir, [("other", x), ("second", y)])))
    g.append(("no import", import_case(mir, [])))
    g.append(("other statements", import_case(mir, [(None, ()), ("other", [("a", None)]), (None, ()), ("second", [("s", None)])])))
    g.append(("the same import twice", import_case(mir, [("other", [("_", None)]), ("other", [("_", None)])])))
    std = {"a": F(1, 6), "z": F(2, 6), "i": ("InstanceCon", 4, 10)}
    for ts in ([], [("a", None)], [("_", None)], [("x", "z")], [("a", "n")]):
        g.append(("import of %s beside the library" % txt(ts), import_case(mir, [("other", ts)] if ts else [], std)))
    g.append(("the built-in module", import_case(mir, [], None, "builtin")))
    g.append(("the built-in module with imports", import_case(mir, [("other", [("a", None)])], None, "builtin")))
    for ts in ([("_", None)], [("i", None)], [("j", "k")], [("f", None)]):
        g.append(("import of %s from a module with instances" % txt(ts), import_case(mir, [("with instances", ts)])))
    return g


def exports(mir):
    g = []
    for n, ts in enumerate([[x] for x in LISTS] + [[[("a", None)], [("x", "a")]], [[("a", None)], [("x", None)]], [[("_", None)], [("a", None)]], [[("a", "n")], [("x", "n")]], [None, [("a", None)], None], []]):
        def build(ts=ts):
            c = Ports(mir)
            m = c.module(1, None, top=HAVE)
            st = []
            for i, x in enumerate(ts):
                if x is None:
                    c.stmts["statement %d" % i] = None
                    st.append("statement %d" % i)
                else:
                    st.append(put(c, i, "export", x))
            c.root = (SE + "exporter::run", [m, code_of(c, st)], ())
            want = {}
            for x in ts:
                if x is not None and want is not None:
                    got = ported(HAVE, x)
                    want = None if got is None else together(want, got)

            def rule(s, r, say):
                if failed(r) != (want is None):
                    return say("accepted" if want is None else "refused")
                if want is None:
                    return
                v = fields(mir, c.e.res(s, c.e.load(s, m[1], m[2])))
                got = names_of(c, fields(mir, c.e.res(s, v["exports"]))["map"])
                for x in sorted(set(got) | set(want)):
                    if got.get(x) != want.get(x):
                        say("%s is %s instead of %s" % (x, got.get(x, "not given"), want.get(x, "not given")))
                if names_of(c, fields(mir, c.e.res(s, v["top_level"]))["map"]) != HAVE:
                    say("the names of the module itself are others after it")
            return c, rule
        g.append(("export %d of %s" % (n, str(ts)[:80]), build))
    return g


def run_case(name, build):
    c, rule = build()
    return finish(c, name, c.run(), rule)
