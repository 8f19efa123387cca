"""Unification as analysed code: types are cells of a pool, given by their shapes; what is below the shapes is abstract.

A pool is a list of cells:
  ("v", kind, level)        an unknown of its own
  ("l", i)                  refers to cell i (with a kind and a level that may be out of date)
  ("c", name)               a constructor
  ("g", number, level)      a type parameter
  ("a", i, (j, k, ..))      an application, its parts being cells; the arguments are adjacent
  ("x", name)               anything: unification with it is not followed but required, and may fail
"""
from forms import *

U = "llrl::unification::"
T = U + "types::"
K = U + "kind::"
TYPE = ("adt", T + "Type", ())
KIND = ("adt", K + "Kind", ())
STALE = (77, 9)
DATA = ("adt", "llrl::ast::decl::DataTypeCon", ())


class World:
    """a context with the given pool"""

    def __init__(self, mir, pool, kinds=None):
        self.mir, self.pool, self.kinds = mir, pool, kinds or {}
        self.st = State()
        self.e = Engine(mir, self.hook, max_visits=300, max_depth=150)
        self.a = Ast(mir, self.e, self.st)
        self.follow = ()
        self.env = {}
        self.caches = {"con": {}, "gen": {}}
        (_, v), = self.e.call_fn(self.st, U + "Var::<T>::from_index", [I(0, "usize")], (TYPE,))
        self.ph = v[4][1]
        self.var0 = v

    # -- values
    def var(self, i):
        return self.var0[:4] + ((I(i, "u32"), self.ph),)

    def vars(self, lo, n):
        return ("adt", U + "Vars", 0, "", (I(lo if n else 0, "u32"), I(lo + n if n else 0, "u32"), self.ph))

    def level(self, n):
        return ("adt", U + "Level", 0, "", (I(n, "u32"),))

    def kid(self, n):
        return ("adt", "llrl::interning::Interned", 0, "", (I(n, "u32"), self.ph))

    def con(self, name):
        n = {"x": 500}.get(name[0], 300) + int(name[1:])
        return self.a.enum("llrl::ast::types::TypeCon", "Data", self.a.nid(n))

    def value(self, d, i=None):
        k = d[0]
        if k == "v":
            return self.a.enum(T + "Type", "Var", self.var(i), self.kid(d[1]), self.level(d[2]))
        if k == "l":
            return self.a.enum(T + "Type", "Var", self.var(d[1]), self.kid(STALE[0]), self.level(STALE[1]))
        if k in "cx":
            return self.a.enum(T + "Type", "Con", self.con((k if k == "x" else "c") + str(d[1])))
        if k == "g":
            return self.a.enum(T + "Type", "Gen", self.a.nid(d[1]), self.level(d[2]))
        if k == "a":
            return self.a.enum(T + "Type", "App", self.var(d[1]), self.vars(d[2][0] if d[2] else 0, len(d[2])))
        raise Bad("no such cell")

    def context(self):
        a = self.a
        f = {x["n"]: ("sym", x["n"], ("adt", x["n"], ())) for x in self.mir.adts[T + "Context"]["variants"][0]["fields"]}
        f["pool"] = ("arr", tuple(self.value(d, i) for i, d in enumerate(self.pool)))
        f["kind_type_cache"] = self.kid(1)
        f["con_kind_cache"] = ("map", None, tuple((self.con(n), self.kid(k)) for n, k in self.caches["con"].items()))
        f["gen_kind_cache"] = ("map", None, tuple((a.nid(n), self.kid(k)) for n, k in self.caches["gen"].items()))
        self.cx = a.box(a.struct(T + "Context", **f))
        return self.cx

    # -- reading back
    def final(self, st):
        v = self.e.load(st, *self.e.deref(st, self.cx))
        p = self.e.res(st, fields(self.mir, v)["pool"])
        if p[0] != "arr":
            raise Bad("the pool is not known: %s" % str(p)[:200])
        return [self.cell(st, x) for x in p[1]]

    def cell(self, st, v):
        v = self.e.res(st, v)
        if v[0] == "ref":
            return self.cell(st, self.e.through(st, v))
        if v[0] != "adt" or v[1] != T + "Type":
            raise Bad("a type that cannot be followed: %s" % str(v)[:200])
        f = [self.e.res(st, x) for x in v[4]]
        n = lambda x: self.e.res(st, x[4][0])[1]
        if v[3] == "Var":
            return ("v", n(f[0]), n(f[1]), n(f[2]))
        if v[3] == "Con":
            i = idnum(self.e.res(st, f[0][4][0]))[1]
            return ("x", i - 500) if i >= 500 else ("c", i - 300)
        if v[3] == "App":
            lo, hi = (self.e.res(st, x)[1] for x in f[1][4][:2])
            return ("a", n(f[0]), tuple(range(lo, hi)))
        return ("g", idnum(f[0])[1], n(f[1]))

    def index(self, st, v):
        """what a Var or a Type given to a function stands for, as a cell or ("cell", i)"""
        v = self.e.res(st, v)
        if v[0] == "ref":
            return self.index(st, self.e.through(st, v))
        if v[0] == "adt" and v[1] == U + "Var":
            return ("cell", self.e.res(st, v[4][0])[1])
        return self.cell(st, v)

    def abstract(self, st, v):
        d = self.index(st, v)
        seen = set()
        pool = None
        while d[0] in ("cell", "v"):
            i = d[1]
            if i in seen:
                return None
            seen.add(i)
            pool = pool or self.final(st)
            d = pool[i]
        return d[1] if d[0] == "x" else None

    # -- the operations that are not followed
    def hook(self, e, st, c):
        d = strip_generics(c.d)
        last = d.rsplit("::", 1)[-1]
        if d == T + "Context::unify" or d in (T + "Context::match_to_right", T + "Context::match_to_right_on"):
            a, b = c.args[-2:]
            x, y = self.abstract(st, a), self.abstract(st, b)
            if x is not None or y is not None:
                if last == "match_to_right_on":
                    fx = e.res(st, e.through(st, c.args[1]))
                    if fx[0] not in ("map", "arr", "set"):
                        raise Bad("the variables that are kept are not known: %s" % str(fx)[:120])
                    st.emit("kept", tuple(sorted(self.index(st, k[0] if isinstance(k, tuple) and isinstance(k[0], tuple) else k)[1] for k in fx[2])) if fx[0] == "map" else ())
                st.emit(last[:5], x if x is not None else self.term(st, a), y if y is not None else self.term(st, b))
                s2 = st.fork()
                s2.emit("failed")
                return [(st, ok(UNIT)), (s2, err(self.a.enum(U + "Error", "Mismatch")))]
            return None
        if d == T + "Context::get_kind_id" and "get_kind_id" not in self.follow:
            t = self.index(st, c.args[1])
            k = self.kind_of(st, t)
            return [(st, self.kid(k))]
        return None

    def kind_of(self, st, t):
        pool = self.final(st)
        n = 0
        while t[0] == "cell" or t[0] == "v" and pool[t[1]][:2] != t[:2]:
            t = pool[t[1]]
            n += 1
            if n > 50:
                raise Bad("a circular type")
        if t[0] == "v":
            return pool[t[1]][2]
        return self.kinds.get(t, 1)

    def term(self, st, v):
        return Pool(self.final(st)).term(self.index(st, v))


class Circular(Exception):
    pass


class Pool:
    """the meaning of cells: terms ("v", cell, kind, level) ("c", n) ("g", n, level) ("a", callee, args) ("x", n)"""

    def __init__(self, cells):
        self.cells = cells

    def term(self, d, above=()):
        if d[0] == "cell" or d[0] == "v" and self.cells[d[1]] [:2] != ("v", d[1]):
            i = d[1]
            if i in above:
                raise Circular()
            return self.term(self.cells[i], above + (i,))
        if d[0] == "v":
            return self.cells[d[1]]
        if d[0] == "a":
            return ("a", self.term(("cell", d[1]), above), tuple(self.term(("cell", x), above) for x in d[2]))
        return d


def initial(pool):
    r = []
    for i, d in enumerate(pool):
        r.append(("v", i, d[1], d[2]) if d[0] == "v" else ("v", d[1]) + STALE if d[0] == "l" else d)
    return r


class Ref:
    """what the rules require: unification of terms over unknowns with kinds and levels"""

    def __init__(self, cells, kinds, keep=()):
        self.p = Pool(cells)
        self.cells, self.kinds, self.keep = cells, kinds, keep
        self.bind, self.lv = {}, {}
        self.open = []

    def walk(self, t):
        while t[0] == "v" and t[1] in self.bind:
            t = self.bind[t[1]]
        if t[0] == "v":
            return t[:3] + (self.lv.get(t[1], t[3]),)
        return t

    def full(self, t):
        t = self.walk(t)
        if t[0] == "a":
            return ("a", self.full(t[1]), tuple(self.full(x) for x in t[2]))
        return t

    def kind(self, t):
        if t[0] == "v":
            return t[2]
        if t[0] == "a":
            return self.kinds.get("a", 1)
        return self.kinds.get(t, 1)

    def eq(self, a, b, one_way=False):
        """False when it cannot be"""
        a, b = self.walk(a), self.walk(b)
        if a[0] == "x" or b[0] == "x":
            self.open.append((a, b))
            return True
        if a[:2] == b[:2] and a[0] == "v":
            return True
        if a[0] == "v" and (not one_way or a[1] not in self.keep):
            return self.put(a, b, one_way)
        if b[0] == "v" and not one_way:
            return self.put(b, a, one_way)
        if a[0] == "a" and b[0] == "a":
            if len(a[2]) != len(b[2]):
                return False
            r = self.eq(a[1], b[1], one_way)
            for x, y in zip(a[2], b[2]):
                r = r and self.eq(x, y, one_way)
            return r
        return a == b

    def put(self, v, t, one_way):
        t = self.full(t)
        ls = leaves(t)
        if any(x[:2] == v[:2] for x in ls) or self.kind(t) != v[2]:
            return False
        self.bind[v[1]] = t
        for x in ls:
            if x[-1] > v[3]:
                if x[0] == "g" or one_way:
                    return False
                self.lv[x[1]] = v[3]
        return True


def leaves(t):
    if t[0] == "a":
        return leaves(t[1]) + [y for x in t[2] for y in leaves(x)]
    return [t] if t[0] in "vg" else []


# ---------------------------------------------------------------- cases

class Set:
    """a pool, written down by name"""

    def __init__(self):
        self.cells, self.names, self.kinds = [], {}, {}

    def add(self, name, *d):
        self.names[name] = len(self.cells)
        self.cells.append(d)
        return len(self.cells) - 1

    def app(self, name, callee, *args):
        """args: cells copied or referred to as the context does it"""
        lo = len(self.cells)
        for x in args:
            self.cells.append(self.copy(x))
        return self.add(name, "a", self.names[callee], tuple(range(lo, lo + len(args))))

    def copy(self, x):
        i = self.names[x]
        return ("l", i) if self.cells[i][0] == "v" else self.cells[i]


def everything():
    s = Set()
    s.add("unknown", "v", 1, 1)
    s.add("deeper unknown", "v", 1, 3)
    s.add("outer unknown", "v", 1, 0)
    s.add("unknown of another kind", "v", 2, 1)
    s.add("constructor", "c", 1)
    s.add("other constructor", "c", 2)
    s.add("constructor of another kind", "c", 3)
    s.add("type parameter", "g", 1, 0)
    s.add("deeper type parameter", "g", 2, 3)
    s.add("type parameter of the same level", "g", 3, 1)
    for i in range(1, 6):
        s.add("part %d" % i, "x", i)
    s.add("referring", "l", s.names["unknown"])
    s.add("referring to referring", "l", s.names["referring"])
    s.add("settled", "l", s.names["constructor"])
    s.app("one part", "part 1", "part 2")
    s.app("two parts", "part 1", "part 2", "part 3")
    s.app("other two parts", "part 4", "part 5", "part 3")
    s.app("two parts of another", "part 5", "part 2", "part 3")
    s.app("two parts, the first another", "part 1", "part 4", "part 3")
    s.app("two parts, the last another", "part 1", "part 2", "part 5")
    s.app("three parts", "part 1", "part 2", "part 3", "part 4")
    s.app("of the unknown", "other constructor", "unknown")
    s.app("of the deeper unknown", "other constructor", "deeper unknown", "constructor")
    s.app("of the outer unknown", "other constructor", "constructor", "outer unknown")
    s.app("of the deeper type parameter", "other constructor", "constructor", "deeper type parameter")
    s.app("of the type parameter", "other constructor", "type parameter", "type parameter of the same level")
    s.app("under the unknown of another kind", "unknown of another kind", "constructor", "constructor")
    s.app("below", "other constructor", "of the unknown", "of the deeper unknown")
    s.app("of all unknowns", "other constructor", "outer unknown", "unknown", "deeper unknown")
    s.app("of all unknowns, otherwise", "other constructor", "unknown", "deeper unknown", "outer unknown")
    s.app("of the unknown twice", "other constructor", "unknown", "unknown")
    s.app("of two", "other constructor", "deeper unknown", "of the unknown")
    s.app("of the unknown and a type parameter", "other constructor", "unknown", "deeper type parameter")
    s.app("of another kind", "constructor of another kind", "constructor")
    s.kinds = {("c", 3): 2, ("c", 2): 3, ("of", ("c", 3)): 2, ("x", 5): 2}
    return s


def meaning(cells):
    """what each cell stands for, the unknowns named by the first cell that stands for them"""
    p = Pool(cells)
    ts = [p.term(("cell", i)) for i in range(len(cells))]
    return ts


def named(ts):
    first = {}

    def go(t):
        if t[0] == "v":
            return ("v", first.setdefault(t[1], len(first))) + t[2:]
        if t[0] == "a":
            return ("a", go(t[1]), tuple(go(x) for x in t[2]))
        return t
    return [go(t) for t in ts]


def pair_case(mir, fn, s, x, y, typed):
    one_way = fn != "unify"
    def build():
        w = World(mir, s.cells, s.kinds)
        i, j = s.names[x], s.names[y]
        cx = w.context()
        cells = initial(s.cells)
        arg = (lambda i: w.value(s.cells[i], i)) if typed else w.var
        ty = TYPE if typed else ("adt", U + "Var", (TYPE,))
        args = [cx, arg(i), arg(j)]
        w.root = (T + "Context::<E>::" + fn, args, (("param", "E"), ty, ty))

        def rule(outs, say):
            p = Pool(cells)
            keep = {t[1] for t in leaves(p.term(("cell", j))) if t[0] == "v"} if one_way else ()
            ref = Ref(cells, s.kinds, keep)
            can = ref.eq(p.term(("cell", i)), p.term(("cell", j)), one_way)
            for st, v in outs:
                v = w.e.res(st, v)
                if v[0] != "adt" or v[3] not in ("Ok", "Err"):
                    raise Bad("an answer that cannot be followed: %s" % str(v)[:200])
                failed = [k for k, ev in enumerate(st.events) if ev[0] == "failed"]
                good = v[3] == "Ok"
                if good and failed:
                    say("goes on although a part does not agree")
                    continue
                if good and not can:
                    say("accepted although the types cannot be made equal within their kinds and levels")
                    continue
                if not good:
                    if can and not failed:
                        say("rejected although the types can be made equal")
                    continue
                asked = [ev[1:] for ev in st.events if ev[0] in ("unify", "match")]
                want = [(a[1] if a[0] == "x" else a, b[1] if b[0] == "x" else b) for a, b in ref.open if a != b]
                n = (lambda q: tuple(sorted(q, key=str))) if not one_way else tuple
                if {n(q) for q in asked if q[0] != q[1]} != {n(q) for q in want}:
                    say("parts made equal: %s, the rule has %s" % (sorted(map(str, asked)), sorted(map(str, want))))
                    continue
                for ev in st.events:
                    if ev[0] == "kept" and set(ev[1]) != keep:
                        say("the unknowns that are kept are %s, not those of the right side %s" % (sorted(ev[1]), sorted(keep)))
                try:
                    now = meaning(w.final(st)[:len(cells)])
                except Circular:
                    say("a circular type is built")
                    continue
                q = Ref(cells, s.kinds)
                q.bind, q.lv = ref.bind, ref.lv
                want = [q.full(p.term(("cell", k))) for k in range(len(cells))]
                a, b = named(now), named(want)
                for k, (m, n) in enumerate(zip(a, b)):
                    if m != n:
                        name = [z for z, c in s.names.items() if c == k]
                        say("afterwards %s stands for %s, the rule has %s" % (name[0] if name else "cell %d" % k, m, n))
                        break
        return w, rule
    return build


def run_case(name, build):
    w, rule = build()
    path, args, targs = w.root
    outs = w.e.call_fn(w.st, path, args, targs)
    bad = []
    rule(outs, lambda m: bad.append("%s: %s" % (name, m)))
    if not outs and not w.e.panics:
        bad.append("%s: never comes to an end" % name)
    for x in w.e.panics[:3]:
        bad.append("%s: can panic: %s" % (name, str(x)[:160]))
    lost(w.e)
    for x in w.e.cuts[:3]:
        raise Bad("%s: %s" % (name, str(x)[:200]))
    return sorted(set(bad)), len(outs), set(w.e.analysed)


def pair_table(mir):
    s = everything()
    g = []
    for fn in ("unify", "match_to_right"):
        for x in s.names:
            for y in s.names:
                if x.startswith("part") or y.startswith("part"):
                    continue
                g.append(("%s %s with %s" % (fn, x, y), pair_case(mir, fn, s, x, y, (len(g) % 3) == 1)))
    return g


# ---------------------------------------------------------------- operations on one type

def refcell(w, v):
    return w.a.box(v)


def result_term(w, st, v):
    return Pool(w.final(st)).term(w.index(st, v))


def unchanged(w, cells, st, say, but=None):
    """every cell stands for what it stood for"""
    try:
        now = meaning(w.final(st)[:len(cells)])
    except Circular:
        say("a circular type is built")
        return
    was = meaning(cells)
    if named(now) != named(was):
        say("cells stand for something else afterwards")


def ints(w, st, v):
    """a set of Vars"""
    v = w.e.res(st, v)
    if v[0] == "ref":
        return ints(w, st, w.e.through(st, v))
    if v[0] == "map" and v[1] is None:
        return {w.index(st, k)[1] for k, _ in v[2]}
    raise Bad("a set that is not known: %s" % str(v)[:160])


class Ops:
    def __init__(self, mir):
        self.mir = mir
        self.s = everything()
        self.cells = initial(self.s.cells)

    def world(self):
        return World(self.mir, self.s.cells, self.s.kinds)

    def on(self, w, x, typed):
        i = self.s.names[x]
        if typed:
            return w.value(self.s.cells[i], i), TYPE
        return w.var(i), ("adt", U + "Var", (TYPE,))

    def what(self, x):
        return Pool(self.cells).term(("cell", self.s.names[x]))

    def case(self, fn, x, extra, rule, typed, targs=()):
        def build():
            w = self.world()
            cx = w.context()
            v, ty = self.on(w, x, typed)
            w.root = (T + "Context::<E>::" + fn, extra(w, cx, v), (("param", "E"), ty) + tuple(targs))
            return w, lambda outs, say: rule(w, outs, say)
        return build

    def deepest(self, x, typed):
        lv = max([l[-1] for l in leaves(self.what(x))] or [0])

        def rule(w, outs, say):
            for st, v in outs:
                v = w.e.res(st, v)
                if w.e.res(st, v[4][0])[1] != lv:
                    say("the deepest level is given as %s, it is %d" % (w.e.res(st, v[4][0])[1], lv))
                unchanged(w, self.cells, st, say)
        return self.case("compute_deepest_level", x, lambda w, cx, v: [cx, v], rule, typed)

    def vars(self, x, lv, typed):
        want = {l[1] for l in leaves(self.what(x)) if l[0] == "v" and l[3] >= lv}

        def rule(w, outs, say):
            for st, v in outs:
                got = ints(w, st, v)
                if got != want:
                    say("the unknowns of level %d and deeper are given as %s, they are %s" % (lv, sorted(got), sorted(want)))
                unchanged(w, self.cells, st, say)
        return self.case("get_vars", x, lambda w, cx, v: [cx, v, w.level(lv)], rule, typed)

    def default(self, x, kind, typed):
        d = ("c", {1: 1, 2: 3}[kind])
        t = self.what(x)
        ref = Ref(self.cells, self.s.kinds)
        can = True
        for l in leaves(t):
            if l[0] == "v":
                can = can and ref.eq(l, d)

        def rule(w, outs, say):
            for st, v in outs:
                v = w.e.res(st, v)
                if (v[3] == "Ok") != can:
                    say("unknowns are settled although their kind is another" if not can else "rejected although every unknown can be settled")
                if v[3] == "Ok" and can:
                    want = [ref.full(Pool(self.cells).term(("cell", k))) for k in range(len(self.cells))]
                    if named(meaning(w.final(st)[:len(self.cells)])) != named(want):
                        say("the unknowns of the type, or others, are not settled as given")
        return self.case("default_vars", x, lambda w, cx, v: [cx, v, w.value(d)], rule, typed)

    MAP = {1: "of the unknown", 3: "outer unknown"}

    def mapv(self, w):
        return w.a.box(("map", None, tuple((w.a.nid(g), w.value(self.s.cells[self.s.names[x]], self.s.names[x])) for g, x in self.MAP.items())))

    def put(self, t):
        if t[0] == "g" and t[1] in self.MAP:
            return self.what(self.MAP[t[1]])
        if t[0] == "a":
            return ("a", self.put(t[1]), tuple(self.put(z) for z in t[2]))
        return t

    def subst(self, x, typed):
        want = self.put(self.what(x))

        def rule(w, outs, say):
            for st, v in outs:
                got = result_term(w, st, v)
                if got != want:
                    say("type parameters are replaced to give %s, the rule has %s" % (got, want))
                unchanged(w, self.cells, st, say)
        return self.case("subst", x, lambda w, cx, v: [cx, self.mapv(w), v], rule, typed)

    @staticmethod
    def flat(t):
        """terms to be compared: levels do not count"""
        if t[0] == "a":
            return ("a", Ops.flat(t[1]), tuple(Ops.flat(z) for z in t[2]))
        return t[:2]

    def equal(self, x, y, mapped, typed):
        a, b = self.what(x), self.what(y)
        want = self.flat(self.put_head(a) if mapped else a) == self.flat(b)

        def rule(w, outs, say):
            for st, v in outs:
                v = w.e.res(st, v)
                if v[0] not in "bi" or bool(v[1]) != want:
                    say("taken for %s" % ("equal" if not want else "different"))
                unchanged(w, self.cells, st, say)

        def build():
            w = self.world()
            cx = w.context()
            u, ty = self.on(w, x, typed)
            v, ty2 = self.on(w, y, not typed)
            w.root = (T + "Context::<E>::" + ("equal_on_subst" if mapped else "equal"), [cx] + ([self.mapv(w)] if mapped else []) + [u, v], (("param", "E"), ty, ty2))
            return w, lambda outs, say: rule(w, outs, say)
        return build

    def put_head(self, t):
        # the given types are over unknowns only: replacing them again changes nothing
        return self.put(t)

    def apply(self, x, args):
        """new_app: an application of the given types; of none, the type itself"""
        want = self.what(x) if not args else ("a", self.what(x), tuple(self.what(y) for y in args))

        def rule(w, outs, say):
            for st, v in outs:
                got = result_term(w, st, v)
                if got != want:
                    say("builds %s, not %s" % (got, want))
                unchanged(w, self.cells, st, say)

        def build():
            w = self.world()
            cx = w.context()
            w.root = ("<llrl::unification::types::Context<E> as llrl::ast::types::TypeBuilder>::new_app", [cx, self.on(w, x, True)[0], ("arr", tuple(self.on(w, y, True)[0] for y in args))], (("param", "E"),))
            return w, lambda outs, say: rule(w, outs, say)
        return build


def op_table(mir):
    o = Ops(mir)
    g = []
    names = [x for x in o.s.names if not x.startswith("part")]
    for n, x in enumerate(names):
        t = bool(n % 2)
        g.append(("the deepest level of %s" % x, o.deepest(x, t)))
        for lv in (0, 1, 3, 4):
            g.append(("the unknowns of level %d in %s" % (lv, x), o.vars(x, lv, t)))
        for k in (1, 2):
            g.append(("the unknowns of %s settled by kind %d" % (x, k), o.default(x, k, t)))
        g.append(("type parameters replaced in %s" % x, o.subst(x, t)))
        for m, y in enumerate(names):
            g.append(("equality of %s and %s" % (x, y), o.equal(x, y, False, bool(m % 2))))
            g.append(("equality after replacing of %s and %s" % (x, y), o.equal(x, y, True, bool(m % 2))))
    some_ = ["unknown", "referring to referring", "constructor", "two parts", "type parameter", "settled"]
    for x in some_:
        g.append(("%s applied to nothing" % x, o.apply(x, [])))
        for y in some_:
            g.append(("%s applied to %s" % (x, y), o.apply(x, [y])))
            for z in some_:
                g.append(("%s applied to %s and %s" % (x, y, z), o.apply(x, [y, z])))
    return g


# ---------------------------------------------------------------- to and from the syntax tree, and kinds

AT = "llrl::ast::types::"
UC = "llrl::module::sema::type_inference::unification::"
IMPL = "<llrl::unification::types::Context<E> as llrl::unification::types::"
IMPL2 = UC + "<impl llrl::unification::types::%s<%s> for llrl::unification::types::Context<E>>::%s"
AK = "llrl::ast::kind::Kind"


class Trees(Ops):
    def ast(self, w, t):
        a = w.a
        if t[0] in "cx":
            return a.enum(AT + "Type", "Con", w.con(("c" if t[0] == "c" else "x") + str(t[1])))
        if t[0] == "g":
            return a.enum(AT + "Type", "Gen", a.nid(t[1]))
        if t[0] == "a":
            return a.enum(AT + "Type", "App", a.box(self.ast(w, t[1])), ("arr", tuple(self.ast(w, x) for x in t[2])))
        raise Bad("no such type")

    def read(self, w, st, v):
        """a type of the syntax tree; an unknown is an error"""
        v = w.e.res(st, v)
        if v[0] == "ref":
            return self.read(w, st, w.e.through(st, v))
        if v[0] != "adt" or v[1] != AT + "Type":
            raise Bad("a type that cannot be followed: %s" % str(v)[:200])
        if v[3] == "Con":
            i = idnum(w.e.res(st, w.e.res(st, v[4][0])[4][0]))[1]
            return ("x", i - 500) if i >= 500 else ("c", i - 300)
        if v[3] == "Gen":
            return ("g", idnum(w.e.res(st, v[4][0]))[1])
        if v[3] == "App":
            args = w.e.res(st, v[4][1])
            return ("a", self.read(w, st, v[4][0]), tuple(self.read(w, st, x) for x in args[1]))
        return (v[3],)

    @staticmethod
    def out(t):
        if t[0] == "a":
            return ("a", Trees.out(t[1]), tuple(Trees.out(x) for x in t[2]))
        return ("Error",) if t[0] == "v" else t[:2]

    @staticmethod
    def inn(t):
        if t[0] == "a":
            return ("a", Trees.inn(t[1]), tuple(Trees.inn(x) for x in t[2]))
        return t + (0,) if t[0] == "g" else t

    def import_(self, t):
        def build():
            w = self.world()
            w.pool, w.caches["gen"] = [], {n: 1 for n in range(10)}
            cx = w.context()
            w.root = (IMPL + "Import<llrl::ast::types::Type>>::import", [cx, w.a.box(self.ast(w, t))], (("param", "E"),))

            def rule(outs, say):
                for st, v in outs:
                    got = result_term(w, st, v)
                    if got != self.inn(t):
                        say("read as %s, it is %s" % (got, self.inn(t)))
            return w, rule
        return build

    def export(self, x):
        want = self.out(self.what(x))

        def build():
            w = self.world()
            cx = w.context()
            w.root = (IMPL + "Export<llrl::unification::types::Type>>::export", [cx, w.a.box(self.on(w, x, True)[0])], (("param", "E"),))

            def rule(outs, say):
                for st, v in outs:
                    got = self.read(w, st, v)
                    if got != want:
                        say("written as %s, it is %s" % (got, want))
                    unchanged(w, self.cells, st, say)
            return w, rule
        return build

    # -- schemes, constraints and how they are satisfied
    def cons(self, w, cid, cls, *xs):
        a = w.a
        return a.struct(UC + "Constraint", id=a.nid(cid), rep=a.enum(UC + "ConstraintRep", "Class", a.nid(cls), ("arr", tuple(self.on(w, x, True)[0] for x in xs))))

    def rcons(self, w, st, v):
        f = fields(self.mir, w.e.res(st, v))
        r = w.e.res(st, f["rep"])
        u = w.e.res(st, r[4][0])
        if u[3] != "Resolved":
            raise Bad("a class that is not resolved")
        return ("constraint", idnum(f["id"])[1], idnum(w.e.res(st, u[4][0]))[1], tuple(self.read(w, st, x) for x in w.e.res(st, r[4][1])[1]))

    def rsat(self, w, st, v):
        v = w.e.res(st, v)
        if v[0] == "ref":
            return self.rsat(w, st, w.e.through(st, v))
        if v[3] == "Error":
            return ("Error",)
        f = fields(self.mir, w.e.res(st, v[4][0]))
        if v[3] == "ByPremise":
            return ("premise", idnum(f["id"])[1], tuple(idnum(x)[1] for x in w.e.res(st, f["path"])[1]))
        u = w.e.res(st, f["use_"])
        if u[3] != "Resolved":
            raise Bad("an instance that is not resolved")
        return ("instance", idnum(w.e.res(st, u[4][0]))[1]) + self.rinst(w, st, f["instantiation"])

    def rinst(self, w, st, v):
        f = fields(self.mir, w.e.res(st, v))
        return tuple(self.read(w, st, x) for x in w.e.res(st, f["ty_args"])[1]), tuple(self.rsat(w, st, x) for x in w.e.res(st, f["s_args"])[1])

    def sat(self, w, s):
        a = w.a
        if s[0] == "premise":
            return a.enum(UC + "Satisfaction", "ByPremise", a.struct(UC + "SatisfactionByPremise", id=a.nid(s[1]), path=("arr", tuple(a.nid(x) for x in s[2]))))
        if s[0] == "instance":
            return a.enum(UC + "Satisfaction", "ByInstance", a.struct(UC + "SatisfactionByInstance", use_=a.nid(s[1]), instantiation=self.inst(w, s[2], s[3])))
        cell = NONE if s[1] is None else some(self.sat(w, s[1]))
        return a.enum(UC + "Satisfaction", "Var", a.box(cell))

    def inst(self, w, tys, sats):
        return w.a.struct(UC + "Instantiation", ty_args=("arr", tuple(self.on(w, x, True)[0] for x in tys)), s_args=("arr", tuple(self.sat(w, s) for s in sats)))

    def shown(self, s):
        if s[0] == "premise":
            return s
        if s[0] == "instance":
            return ("instance", s[1], tuple(self.out(self.what(x)) for x in s[2]), tuple(self.shown(x) for x in s[3]))
        return ("Error",) if s[1] is None else self.shown(s[1])

    def scheme_out(self, gens, cons, body):
        def build():
            w = self.world()
            a = w.a
            cx = w.context()
            v = a.struct(UC + "Scheme", ty_params=("arr", tuple(a.nid(g) for g in gens)), s_params=("arr", tuple(self.cons(w, *c) for c in cons)), body=self.on(w, body, True)[0])
            w.root = (IMPL2 % ("Export", UC + "Scheme", "export"), [cx, a.box(v)], (("param", "E"),))

            def rule(outs, say):
                for st, v in outs:
                    f = fields(self.mir, w.e.res(st, v))
                    g = tuple(idnum(fields(self.mir, w.e.res(st, x))["id"])[1] for x in w.e.res(st, f["ty_params"])[1])
                    c = tuple(self.rcons(w, st, x) for x in w.e.res(st, f["s_params"])[1])
                    got = (g, c, self.read(w, st, f["body"]))
                    want = (tuple(gens), tuple(("constraint",) + c[:2] + (tuple(self.out(self.what(x)) for x in c[2:]),) for c in cons), self.out(self.what(body)))
                    if got != want:
                        say("written as %s, it is %s" % (got, want))
            return w, rule
        return build

    def inst_out(self, tys, sats):
        def build():
            w = self.world()
            cx = w.context()
            w.root = (IMPL2 % ("Export", UC + "Instantiation", "export"), [cx, w.a.box(self.inst(w, tys, sats))], (("param", "E"),))

            def rule(outs, say):
                for st, v in outs:
                    got = self.rinst(w, st, v)
                    want = (tuple(self.out(self.what(x)) for x in tys), tuple(self.shown(s) for s in sats))
                    if got != want:
                        say("written as %s, it is %s" % (got, want))
            return w, rule
        return build

    # -- the kind of a type
    def kind(self, x, cached):
        """kinds are numbers: 40 and more are those of constructors and type parameters; the kind of an application is what is returned"""
        t = self.what(x)
        fun = {}

        def of(t):
            if t[0] == "v":
                return t[2]
            if t[0] == "a":
                return 1000 + of(t[1])
            return {"c": 40, "x": 60, "g": 80}[t[0]] + t[1]
        want = of(t)

        def build():
            w = self.world()
            w.follow = ("get_kind_id",)
            if cached:
                w.caches = {"con": {"c%d" % i: 40 + i for i in range(1, 6)}, "gen": {i: 80 + i for i in range(1, 6)}}
                w.caches["con"].update({"x%d" % i: 60 + i for i in range(1, 6)})
            cx = w.context()
            inner = w.hook
            KT = ("adt", AK, ())
            num = lambda st, v: w.e.res(st, w.e.res(st, v)[4][0])[1]

            def hook(e, st, c):
                d = strip_generics(c.d)
                if d.endswith("KindEnvironment::resolve_kind"):
                    v = e.res(st, c.args[1])
                    n = idnum(v) or idnum(e.res(st, v[4][0]))
                    n = n[1]
                    k = n + (-500 + 60 if n >= 500 else -300 + 40 if n >= 300 else 80)
                    return [(st, ("adt", "std::borrow::Cow", 1, "Owned", (("app", "kind", (("s", k),), KT),)))]
                if d == "llrl::interning::InternTable::intern":
                    v = e.res(st, c.args[1])
                    while v[0] == "ref":
                        v = e.res(st, e.through(st, v))
                    if v[0] != "app" or v[1] != "kind":
                        raise Bad("a kind that cannot be followed: %s" % str(v)[:200])
                    return [(st, w.kid(v[2][0][1]))]
                if d == "llrl::interning::InternTable::review":
                    k = num(st, c.args[1])
                    v = w.a.enum(AK, "Fun", ("arr", (("app", "kind", (("s", 5),), KT),)), e.new_cell(st, ("app", "kind", (("s", 1000 + k),), KT)))
                    return [(st, e.new_cell(st, v))]
                return inner(e, st, c)
            w.e.hooks = w.hook = hook
            v, ty = self.on(w, x, True)
            w.root = (T + "Context::<E>::get_kind_id", [cx, v], (("param", "E"), ty))

            def rule(outs, say):
                for st, v in outs:
                    if num(st, v) != want:
                        say("the kind is given as %d, it is %d" % (num(st, v), want))
                    f = fields(self.mir, w.e.load(st, *w.e.deref(st, w.cx)))
                    for cache, base in (("con_kind_cache", None), ("gen_kind_cache", 80)):
                        for k, v in w.e.res(st, f[cache])[2]:
                            n = (idnum(k) or idnum(w.e.res(st, k[4][0])))[1]
                            if num(st, v) != (80 + n if base else n - 500 + 60 if n >= 500 else n - 300 + 40):
                                say("the kind of another constructor is remembered")
            return w, rule
        return build


def tree_table(mir):
    o = Trees(mir)
    g = []
    names = [x for x in o.s.names if not x.startswith("part")]
    c1, c2, g1, g2 = ("c", 1), ("c", 2), ("g", 1), ("g", 2)
    for n, t in enumerate((c1, g1, ("a", c1, (c2,)), ("a", c1, (g1, g2)), ("a", g1, (c1, c2, g2)), ("a", c2, (("a", c1, (g1,)), ("a", g2, (c1, c1)))), ("a", ("a", c1, (g1,)), (c2,)),
                           ("a", c2, (c1, ("a", c1, (("a", g1, (g2, c2)),)), g1)))):
        g.append(("reading type %d" % n, o.import_(t)))
    for x in names:
        g.append(("writing %s" % x, o.export(x)))
        g.append(("the kind of %s" % x, o.kind(x, False)))
        g.append(("the kind of %s, seen before" % x, o.kind(x, True)))
    g.append(("writing a type as scheme", o.scheme_out([], [], "of the type parameter")))
    g.append(("writing a scheme", o.scheme_out([1, 3], [(601, 45, "type parameter"), (602, 46, "type parameter", "of the type parameter")], "of the type parameter")))
    pr, pr2, none = ("premise", 601, (602, 603)), ("premise", 604, ()), ("later", None)
    for n, (tys, sats) in enumerate((([], []), (["constructor", "of the type parameter"], [pr]), (["settled"], [pr2, pr]), (["type parameter"], [("instance", 65, ["constructor"], [pr])]),
                                     ([], [("later", pr), none]), ([], [("later", ("later", ("instance", 66, ["settled", "type parameter"], [pr2, ("instance", 67, [], [])])))]))):
        g.append(("writing instantiation %d" % n, o.inst_out(tys, sats)))
    return g


# ---------------------------------------------------------------- kinds
#   ("v",) an unknown   ("l", i) refers to cell i   ("t", name) a constant   ("f", (cells..), cell) a function

ATOMS = ("Type", "Constraint", "Satisfaction", "Value", "Macro")


class KindWorld(World):
    def __init__(self, mir, pool):
        self.mir, self.own = mir, pool
        self.st = State()
        self.e = Engine(mir, None, max_visits=300, max_depth=150)
        self.a = Ast(mir, self.e, self.st)
        (_, v), = self.e.call_fn(self.st, U + "Var::<T>::from_index", [I(0, "usize")], (KIND,))
        self.ph, self.var0 = v[4][1], v
        (_, v), = self.e.call_fn(self.st, K + "Context::new", [], ())
        self.base = self.e.res(self.st, fields(mir, v)["pool"])
        if self.base[0] != "arr":
            raise Bad("the pool of a new context is not known")
        self.off = len(self.base[1])
        self.cells = [self.kcell(self.st, x) for x in self.base[1]] + [self.initial(d, i) for i, d in enumerate(pool)]

    def initial(self, d, i):
        o = self.off
        return {"v": lambda: ("v", i + o), "l": lambda: ("v", d[1] + o), "t": lambda: d, "f": lambda: ("f", tuple(x + o for x in d[1]), d[2] + o)}[d[0]]()

    def value(self, d):
        if d[0] == "v":
            return self.a.enum(K + "Kind", "Var", self.var(d[1]))
        if d[0] == "t":
            return self.a.enum(K + "Kind", d[1])
        return self.a.enum(K + "Kind", "Fun", self.vars(d[1][0], len(d[1])), self.var(d[2]))

    def context(self):
        self.cx = self.a.box(self.a.struct(K + "Context", pool=("arr", self.base[1] + tuple(self.value(d) for d in self.cells[self.off:]))))
        return self.cx

    def kcell(self, st, v):
        v = self.e.res(st, v)
        if v[0] != "adt" or v[1] != K + "Kind":
            raise Bad("a kind that cannot be followed: %s" % str(v)[:200])
        n = lambda x: self.e.res(st, self.e.res(st, x)[4][0])[1]
        if v[3] == "Var":
            return ("v", n(v[4][0]))
        if v[3] == "Fun":
            lo, hi = (self.e.res(st, x)[1] for x in self.e.res(st, v[4][0])[4][:2])
            return ("f", tuple(range(lo, hi)), n(v[4][1]))
        return ("t", v[3])

    def final(self, st):
        v = self.e.load(st, *self.e.deref(st, self.cx))
        return [self.kcell(st, x) for x in self.e.res(st, fields(self.mir, v)["pool"])[1]]


def kterm(cells, d, above=()):
    if d[0] == "v":
        if cells[d[1]] == d:
            return d
        if d[1] in above:
            raise Circular()
        return kterm(cells, cells[d[1]], above + (d[1],))
    if d[0] == "f":
        for x in d[1] + (d[2],):
            if x in above:
                raise Circular()
        return ("f", tuple(kterm(cells, cells[x], above + (x,)) for x in d[1]), kterm(cells, cells[d[2]], above + (d[2],)))
    return d


class KindRef:
    def __init__(self):
        self.b = {}

    def walk(self, t):
        while t[0] == "v" and t[1] in self.b:
            t = self.b[t[1]]
        return t

    def full(self, t):
        t = self.walk(t)
        return ("f", tuple(self.full(x) for x in t[1]), self.full(t[2])) if t[0] == "f" else t

    def eq(self, a, b):
        a, b = self.walk(a), self.walk(b)
        if a == b:
            return True
        if a[0] != "v":
            a, b = b, a
        if a[0] == "v":
            if a in kleaves(self.full(b)):
                return False
            self.b[a[1]] = b
            return True
        return a[0] == b[0] == "f" and len(a[1]) == len(b[1]) and all([self.eq(x, y) for x, y in zip(a[1] + (a[2],), b[1] + (b[2],))])


def kleaves(t):
    return [y for x in t[1] + (t[2],) for y in kleaves(x)] if t[0] == "f" else [t]


def knamed(ts):
    first = {}

    def go(t):
        if t[0] == "v":
            return ("v", first.setdefault(t[1], len(first)))
        return ("f", tuple(go(x) for x in t[1]), go(t[2])) if t[0] == "f" else t
    return [go(t) for t in ts]


class Kinds:
    def __init__(self, mir):
        self.mir = mir
        self.pool, self.names = [], {}
        add = lambda n, *d: (self.names.__setitem__(n, len(self.pool)), self.pool.append(d))
        add("unknown", "v")
        add("other unknown", "v")
        add("referring", "l", 0)
        add("referring to referring", "l", 2)
        for t in ATOMS:
            add(t, "t", t)

        def fun(name, args, ret):
            lo = len(self.pool)
            for x in args + (ret,):
                i = self.names[x]
                self.pool.append(("l", i) if self.pool[i][0] in "vl" else self.pool[i])
            add(name, "f", tuple(range(lo, lo + len(args))), lo + len(args))
        fun("Type to Type", ("Type",), "Type")
        fun("Type to Macro", ("Type",), "Macro")
        fun("Value to Type", ("Value",), "Type")
        fun("unknown to Type", ("unknown",), "Type")
        fun("Type to unknown", ("Type",), "unknown")
        fun("unknown to other", ("unknown",), "other unknown")
        fun("unknown and other to Type", ("unknown", "other unknown"), "Type")
        fun("other and unknown to unknown", ("other unknown", "unknown"), "unknown")
        fun("a function to a function", ("Type to unknown",), "unknown to Type")
        fun("unknown and a function to Type", ("unknown", "unknown to other"), "Type")
        fun("a function and unknown to Type", ("Type to Type", "unknown"), "Type")
        fun("two of a kind", ("unknown", "unknown"), "unknown")

    def cells(self, w, ref=None):
        ts = [kterm(w.cells, ("v", i) if i >= w.off else c) for i, c in enumerate(w.cells)]
        return [ref.full(t) for t in ts] if ref else ts

    def what(self, w, x):
        return kterm(w.cells, ("v", self.names[x] + w.off)) if w.cells[self.names[x] + w.off][0] == "v" else kterm(w.cells, w.cells[self.names[x] + w.off])

    def on(self, w, x, typed):
        i = self.names[x] + w.off
        if typed:
            return w.value(w.cells[i]), KIND
        return w.var(i), ("adt", U + "Var", (KIND,))

    def after(self, w, st, ref, say):
        try:
            now = w.final(st)
            got = [kterm(now, ("v", i) if i >= w.off else now[i]) for i in range(len(w.cells))]
        except Circular:
            say("a circular kind is built")
            return
        if knamed(got) != knamed(self.cells(w, ref)):
            say("cells do not stand for what they should afterwards")

    def case(self, fn, want, args, targs):
        """want(w) -> (can, reference)"""
        def build():
            w = KindWorld(self.mir, self.pool)
            cx = w.context()
            a = args(w)
            w.root = (K + "Context::" + fn, [cx] + [x for x, _ in a], tuple(t for _, t in a if t is not None))
            can, ref = want(w)

            def rule(outs, say):
                for st, v in outs:
                    v = w.e.res(st, v)
                    if (v[3] == "Ok") != can:
                        say("accepted although the kinds cannot be made equal" if not can else "rejected although the kinds can be made equal")
                    elif can:
                        self.after(w, st, ref, say)
            return w, rule
        return build

    def unify(self, x, y, typed):
        def want(w):
            r = KindRef()
            return r.eq(self.what(w, x), self.what(w, y)), r
        return self.case("unify", want, lambda w: [self.on(w, x, typed), self.on(w, y, not typed)], ())

    def default(self, x, typed):
        def want(w):
            r = KindRef()
            return all([r.eq(t, ("t", "Value")) for t in kleaves(self.what(w, x)) if t[0] == "v"]), r
        return self.case("default_vars", want, lambda w: [self.on(w, x, typed), (w.a.enum(K + "Kind", "Value"), None)], ())

    # -- the syntax tree
    def ast(self, w, t):
        if t[0] == "f":
            return w.a.enum(AK, "Fun", ("arr", tuple(self.ast(w, x) for x in t[1])), w.a.box(self.ast(w, t[2])))
        return w.a.enum(AK, t[1])

    def read(self, w, st, v):
        v = w.e.res(st, v)
        if v[0] == "ref":
            return self.read(w, st, w.e.through(st, v))
        if v[0] != "adt" or v[1] != AK:
            raise Bad("a kind that cannot be followed: %s" % str(v)[:200])
        if v[3] == "Fun":
            return ("f", tuple(self.read(w, st, x) for x in w.e.res(st, v[4][0])[1]), self.read(w, st, v[4][1]))
        return ("t", v[3])

    def import_(self, t):
        def build():
            w = KindWorld(self.mir, self.pool)
            cx = w.context()
            w.root = (K + "Context::import", [cx, w.a.box(self.ast(w, t))], ())

            def rule(outs, say):
                for st, v in outs:
                    if kterm(w.final(st), w.kcell(st, v)) != t:
                        say("read as %s, it is %s" % (kterm(w.final(st), w.kcell(st, v)), t))
                    self.after(w, st, None, say)
            return w, rule
        return build

    def export(self, x, typed):
        def build():
            w = KindWorld(self.mir, self.pool)
            cx = w.context()
            v, ty = self.on(w, x, typed)
            w.root = (K + "Context::export", [cx, v, w.a.box(w.a.struct("llrl::ast::Ast"))], (ty, ("adt", "llrl::ast::Ast", ())))
            shown = lambda t: ("f", tuple(shown(x) for x in t[1]), shown(t[2])) if t[0] == "f" else ("t", "Error") if t[0] == "v" else t
            want = shown(self.what(w, x))

            def rule(outs, say):
                for st, v in outs:
                    if self.read(w, st, v) != want:
                        say("written as %s, it is %s" % (self.read(w, st, v), want))
                    self.after(w, st, None, say)
            return w, rule
        return build

    def fun(self, args, ret):
        def build():
            w = KindWorld(self.mir, self.pool)
            cx = w.context()
            w.root = ("<llrl::unification::kind::Context as llrl::ast::kind::KindBuilder>::new_fun", [cx, ("arr", tuple(self.on(w, x, True)[0] for x in args)), self.on(w, ret, True)[0]], ())
            want = ("f", tuple(self.what(w, x) for x in args), self.what(w, ret)) if args else self.what(w, ret)

            def rule(outs, say):
                for st, v in outs:
                    got = kterm(w.final(st), w.kcell(st, v))
                    if got != want:
                        say("builds %s, not %s" % (got, want))
                    self.after(w, st, None, say)
            return w, rule
        return build


def kind_table(mir):
    o = Kinds(mir)
    g = []
    names = list(o.names)
    T_, V = ("t", "Type"), ("t", "Value")
    for x in names:
        for y in names:
            g.append(("kinds %s and %s" % (x, y), o.unify(x, y, bool(len(g) % 2))))
        g.append(("the unknowns of kind %s settled" % x, o.default(x, bool(len(g) % 2))))
        g.append(("writing kind %s" % x, o.export(x, bool(len(g) % 2))))
    for n, t in enumerate([("t", a) for a in ATOMS] + [("f", (T_,), T_), ("f", (V,), T_), ("f", (T_, V), ("t", "Constraint")), ("f", (("f", (T_, T_), V), T_), ("f", (V,), T_)), ("f", (T_,) * 17, V), ("f", (T_,) * 16, T_)]):
        g.append(("reading kind %d" % n, o.import_(t)))
    some_ = ["unknown", "referring to referring", "Type", "Value", "Macro", "Constraint", "Satisfaction", "Type to unknown"]
    for r in some_:
        g.append(("a function of nothing to %s" % r, o.fun([], r)))
        for x in some_:
            g.append(("a function of %s to %s" % (x, r), o.fun([x], r)))
            for y in some_:
                g.append(("a function of %s and %s to %s" % (x, y, r), o.fun([x, y], r)))
        for n in (3, 15, 16, 17):
            g.append(("a function of %d to %s" % (n, r), o.fun(["Type"] * n, r)))
            g.append(("a function of %d and another to %s" % (n, r), o.fun(["Type"] * n + ["unknown"], r)))
    return g
