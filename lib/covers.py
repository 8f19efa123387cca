"""Exhaustiveness of patterns: each step of the check as analysed code, over rows whose further patterns are not known.

A pattern, for the rules, is "_", ("con", name, (patterns..)), ("lit", n), or ("p", name) for one that is not known.
A type is the tuple of its (constructor, arity), or NUM for one whose values are literals."""
import itertools
from forms import *

PM = "llrl::pattern_matching::"
ROW, MAT, PAT, TAG, FIN = PM + "row::Row", PM + "matrix::Matrix", PM + "pattern::Pattern", PM + "pattern::Tag", PM + "pattern::FiniteCon"
X = "llrl::ast::expr::"
VCON = X + "ValueCon"
PATTY = ("adt", PAT, ())
NUM = "literals"
ONE = (("u", 0),)
TWO = (("a", 0), ("b", 1))
THREE = (("a", 0), ("b", 1), ("c", 2))
PAIR = (("p", 2),)
SAME = (("a", 1), ("b", 1))
NAMES = "abcup"


def wild(n):
    return ("_",) * n


def spec(rows, name, k):
    """what the rows require of the fields and the rest, for values made by a constructor of k fields"""
    out = []
    for r in rows:
        h = r[0]
        if h == "_":
            out.append(wild(k) + r[1:])
        elif h[0] == "con" and h[1] == name:
            out.append(h[2] + r[1:])
        elif h[0] == "lit" and ("lit", h[1]) == name:
            out.append(r[1:])
    return out


def cons(t, rows):
    """the constructors of a type, for literals those of the rows and one that stands for all others"""
    if t == NUM:
        return [(r[0], 0) for r in rows if r[0] != "_"] + [("other", 0)]
    return list(t)


def canon(rows, q):
    """columns without any condition removed"""
    n = len(q)
    keep = [i for i in range(n) if q[i] != "_" or any(r[i] != "_" for r in rows)]
    return frozenset(tuple(r[i] for i in keep) for r in rows), tuple(q[i] for i in keep)


def parts(rows, q):
    """the rows, and those among them that have no condition on some of the columns on which there is none"""
    free = [i for i in range(len(q)) if q[i] == "_"]
    for k in range(len(free) + 1):
        for s in itertools.combinations(free, k):
            yield [r for r in rows if all(r[i] == "_" for i in s)]


class Step:
    """an entry point with its recursive calls replaced by answers that are recorded"""

    def __init__(self, mir):
        self.mir = mir
        self.e = Engine(mir, self.hooks, max_visits=400, max_depth=120, max_paths=4000)
        self.st = State()
        self.a = Ast(mir, self.e, self.st)
        self.asked = ()
        self.groups = {}
        self.bound = set()

    # ---- values
    def fin(self, name, n):
        return self.a.struct(FIN, use_=self.a.enum(VCON, "Data", self.a.nid(1 + NAMES.index(name))), arity=I(n, "usize"))

    def tag(self, t, name):
        if t not in self.groups:
            self.groups[t] = self.a.box(("arr", tuple(self.fin(n, k) for n, k in t)))
        return self.a.enum(TAG, "Finite", self.fin(name, dict(t)[name]), self.groups[t])

    def lit(self, n):
        return self.a.enum(TAG, "Const", self.a.enum("llrl::ast::consts::Const", "Char", I(n, "char")))

    def pat(self, t, p):
        if p == "_":
            return self.a.enum(PAT, "Wildcard")
        if p[0] == "p":
            return ("sym", p[1], PATTY)
        if p[0] == "lit":
            return self.a.enum(PAT, "Constructor", self.lit(p[1]), ("arr", ()))
        return self.a.enum(PAT, "Constructor", self.tag(t, p[1]), ("arr", tuple(self.pat(None, x) for x in p[2])))

    def row(self, t, r):
        return self.a.struct(ROW, pats=("arr", tuple(self.pat(t, p) for p in r)))

    def matrix(self, t, rows):
        return self.a.struct(MAT, rows=("arr", tuple(self.row(t, r) for r in rows)))

    # ---- reading
    def read(self, st, v):
        e = self.e
        v = e.res(st, e.through(st, v))
        if v[0] == "sym" and v[2] == PATTY:
            return ("p", v[1])
        if v[0] != "adt" or v[1] != PAT:
            raise Bad("a pattern that cannot be followed: %s" % str(v)[:1800])
        if v[3] == "Wildcard":
            return "_"
        t = e.res(st, e.through(st, v[4][0]))
        ps = tuple(self.read(st, x) for x in self.arr(st, v[4][1]))
        if t[3] == "Const":
            return ("lit", e.res(st, e.res(st, t[4][0])[4][0])[1])
        f = fields(self.mir, e.res(st, t[4][0]))
        n = NAMES[idnum(e.res(st, e.res(st, f["use_"])[4][0]))[1] - 1]
        k = e.res(st, f["arity"])[1]
        if k != len(ps):
            raise Bad("a constructor with %d patterns for its %d fields" % (len(ps), k))
        return ("con", n, ps)

    def arr(self, st, v):
        v = self.e.res(st, self.e.through(st, v))
        if v[0] != "arr":
            raise Bad("a list that cannot be followed: %s" % str(v)[:200])
        return v[1]

    def readrow(self, st, v):
        v = self.e.res(st, self.e.through(st, v))
        if v[0] == "sym":
            return ("row", v[1])
        return tuple(self.read(st, x) for x in self.arr(st, fields(self.mir, v)["pats"]))

    def rows(self, st, v):
        v = self.e.res(st, self.e.through(st, v))
        return [self.readrow(st, r) for r in self.arr(st, fields(self.mir, v)["rows"])]

    # ---- answers
    def hooks(self, e, st, c):
        f = self.answer.get(c.path)
        return f(self, st, c) if f else None

    def h_useful(self, st, c):
        m, q = self.rows(st, c.args[0]), self.readrow(st, c.args[1])
        out = []
        for b in (True,) if not m else (False,) if not q else (False, True):
            s = st.fork()
            s.emit("useful", tuple(m), q, b)
            # what becomes of the matrix is not said
            self.e.store(s, *self.e.deref(s, c.args[0]), ("sym", "spent", ("adt", MAT, ())))
            out.append((s, B(b)))
        return out

    def h_missing(self, st, c):
        m, n = self.rows(st, c.args[0]), self.e.res(st, c.args[1])
        if n[0] != "i":
            raise Bad("a number of columns that is not known")
        out = []
        for k in (1,) if not m else (0,) if not n[1] else (0, 1, 2):
            s = st.fork()
            got = (wild(n[1]),) if not m else tuple(tuple(("p", "m%d.%d.%d" % (len(st.events), i, j)) for j in range(n[1])) for i in range(k))
            s.emit("missing", tuple(m), n[1], got)
            self.e.store(s, *self.e.deref(s, c.args[0]), ("sym", "spent", ("adt", MAT, ())))
            out.append((s, self.matrix(None, got)))
        return out

    def h_apart(self, st, c):
        rd = self.readrow if "row" in c.path else self.read
        x, y = rd(st, c.args[0]), rd(st, c.args[1])
        out = []
        for b in (False, True):
            s = st.fork()
            s.emit("apart", x, y, b)
            out.append((s, B(b)))
        return out


def events(st, kind):
    return [x[1:] for x in st.events if x[0] == kind]


USEFUL, MISSING = MAT + "::compute_usefulness", MAT + "::compute_missing"


class Covers:
    def __init__(self, mir):
        self.mir = mir

    def step(self, **answer):
        c = Step(self.mir)
        c.answer = answer
        return c

    # ---- usefulness of a row
    def useful(self, t, rows, q):
        def build():
            c = Step(self.mir)
            c.answer = {USEFUL: Step.h_useful}
            c.root = (USEFUL, [c.a.box(c.matrix(t, rows)), c.row(t, q)], ())
            return c, lambda outs, say: self.useful_rule(c, outs, say, t, rows, q)
        return build

    def useful_rule(self, c, outs, say, t, rows, q):
        for st, v in outs:
            v = c.e.res(st, v)
            if v[0] != "i":
                raise Bad("the answer is not known: %s" % str(v)[:200])
            known = [canon(m, r) + (b,) for m, r, b in events(st, "useful")]
            for m, r, b in events(st, "useful"):
                if any(len(x) != len(r) for x in m):
                    say("asks about a row and rows of different lengths")

            def of(m, r):
                if not m:
                    return True
                x, y = canon(m, r)
                if any(b and ky == y and kx >= x for kx, ky, b in known):
                    return True
                for part in parts(m, r):
                    x, y = canon(part, r)
                    if part and (not y or any(not b and ky == y and kx <= x for kx, ky, b in known)):
                        return False
                return None
            if not rows:
                want = [True]
            elif not q:
                want = [False]
            elif q[0] == "_":
                want = [of(spec(rows, n, k), wild(k) + q[1:]) for n, k in cons(t, rows)]
            elif q[0][0] == "lit":
                want = [of(spec(rows, q[0], 0), q[1:])]
            else:
                want = [of(spec(rows, q[0][1], len(q[0][2])), q[0][2] + q[1:])]
            if v[1] and True not in want:
                say("says that the row matches something new, which %s" % ("is not so" if None not in want else "does not follow from what was found"))
            if not v[1] and any(w is not False for w in want):
                say("says that the row matches nothing new, which %s" % ("is not so" if True in want else "does not follow from what was found"))

    # ---- what is missing
    def missing(self, t, rows, n):
        def build():
            c = Step(self.mir)
            c.answer = {MISSING: Step.h_missing}
            c.root = (MISSING, [c.a.box(c.matrix(t, rows)), I(n, "usize")], ())
            return c, lambda outs, say: self.missing_rule(c, outs, say, t, rows, n)
        return build

    def missing_rule(self, c, outs, say, t, rows, n):
        for st, v in outs:
            got = c.rows(st, v)
            if any(len(r) != n for r in got):
                say("what is missing has another number of columns")
                continue
            for m, k, r in events(st, "missing"):
                if any(len(x) != k for x in m):
                    say("asks with a number of columns that is not that of the rows")
            if not rows:
                if got != [wild(n)]:
                    say("everything is missing, which is not what is said")
                continue
            if n == 0:
                if got:
                    say("says that something is missing of what is covered")
                continue
            known = [(canon(m, wild(k))[0], k, r, m) for m, k, r in events(st, "missing")]
            empty = [m for m, k, r, _ in known if not r]

            def nothing(m):
                """nothing is missing"""
                if m:
                    for part in parts(m, wild(len(m[0]))):
                        x, _ = canon(part, wild(len(m[0])))
                        if () in x or any(k <= x for k in empty):
                            return True
                return False
            known += [(frozenset(), k, (wild(k),), ()) for k in range(n + 2)]
            listed = [r[0] for r in rows if r[0] != "_" and r[0][0] == "lit"]
            if not got:
                for name, k in cons(t, rows):
                    if not nothing(spec(rows, name, k)):
                        say("says that nothing is missing, which does not follow for values made by %s" % (name,))
                continue
            for r in got:
                fits = False
                for name, k in cons(t, rows):
                    if name in listed:
                        continue
                    mine = spec(rows, name, k)
                    for x in spec([r], name, k):
                        why = not mine and x == wild(k + n - 1)
                        for m, w, res, raw in known:
                            # what was found missing of these rows, perhaps without the columns that have no condition
                            if w == k + n - 1 and sorted(map(str, raw)) == sorted(map(str, mine)) and x in res:
                                why = True
                            if w == n - 1 and x[:k] == wild(k) and sorted(map(str, [wild(k) + y for y in raw])) == sorted(map(str, mine)) and x[k:] in res:
                                why = True
                        if why:
                            fits = True
                        else:
                            say("says that %s is missing, which does not follow for values made by %s" % (r, name))
                if not fits:
                    say("says that %s is missing, which is no value" % (r,))

    # ---- patterns without a value in common
    def apart(self, fn, kind, t, x, y):
        def build():
            c = Step(self.mir)
            c.answer = {PAT + "::is_incompatible_with": Step.h_apart}
            mk = (lambda p: c.a.box(c.pat(t, p))) if kind == "pattern" else (lambda r: c.a.box(c.row(t, r)))
            c.root = (fn, [mk(x), mk(y)], ())
            return c, lambda outs, say: self.apart_rule(c, outs, say, kind, x, y)
        return build

    def apart_rule(self, c, outs, say, kind, x, y):
        for st, v in outs:
            b = c.e.res(st, v)
            if b[0] != "i":
                raise Bad("the answer is not known")
            known = {}
            for p, q, r in events(st, "apart"):
                known[p, q] = known[q, p] = bool(r)

            def of(p, q, top=True):
                if p == "_" or q == "_":
                    return False
                if p[0] == "p" or q[0] == "p":
                    return known.get((p, q))
                if (p, q) in known and not top:
                    return known[p, q]
                if p[:2] != q[:2]:
                    return True
                return any3(of(m, n) for m, n in zip(p[2], q[2])) if p[0] == "con" else False
            want = of(x, y) if kind == "pattern" else any3(known.get((p, q), of(p, q)) for p, q in zip(x, y))
            if want is None:
                say("says whether they have a value in common without having looked")
            elif want != bool(b[1]):
                say("says they have %s value in common" % ("no" if b[1] else "a"))

    # ---- all clauses
    def whole(self, n, empty=False):
        def build():
            c = Step(self.mir)
            c.answer = {USEFUL: Step.h_useful, MISSING: Step.h_missing, ROW + "::is_incompatible_with": Step.h_apart}
            rs = [(("p", "r%d" % i),) for i in range(n)]
            c.root = (PM + "check", [("arr", tuple(c.row(None, r) for r in rs))], ())
            return c, lambda outs, say: self.whole_rule(c, outs, say, rs)
        return build

    def whole_rule(self, c, outs, say, rs):
        for st, v in outs:
            v = c.e.res(st, v)
            us, ms = events(st, "useful"), events(st, "missing")
            aparts = {(x, y) for a, b, r in events(st, "apart") if r for x, y in ((a, b), (b, a))}
            within = {(q, m[0]) for m, q, b in us if not b and len(m) == 1}      # every value of the first is one of the second

            def same(sub, full, of=None):
                """do these rows cover (of the values of a row) what all of them cover?"""
                if any(x not in full for x in sub):
                    return False
                good = set(sub)
                grow = True
                while grow:
                    grow = False
                    for x in full:
                        if x not in good and ((x, of) in aparts or any((x, y) in within and y in good for y in full)):
                            good.add(x)
                            grow = True
                return all(x in good for x in full)
            verdicts = []
            for i, r in enumerate(rs):
                a = [b for m, q, b in us if q == r and same(m, rs[:i], r)]
                a += [True] if i == 0 else []
                verdicts.append(a[0] if a else None)
            dead = [i for i, b in enumerate(verdicts) if b is False]
            if v[3] == "Ok":
                if any(b is not True for b in verdicts):
                    say("accepted, although clause %d was not found to match anything new" % next(i for i, b in enumerate(verdicts) if b is not True))
                if not any(same(m, rs) and not r and k == 1 for m, k, r in ms):
                    say("accepted, although it was not found that nothing is missing")
                continue
            x = c.e.res(st, v[4][0])
            if x[3] == "Useless":
                r = c.readrow(st, x[4][0])
                if r not in [rs[i] for i in dead]:
                    say("clause %s is reported to match nothing new, which was not found" % (r,))
                continue
            if any(b is not True for b in verdicts):
                say("rejected for what is missing before every clause was looked at")
            got = c.rows(st, x[4][0])
            if not got or not any(sorted(got) == sorted(r) and (same(m, rs) or not rs) for m, k, r in ms) and not (not rs and got == [()]):
                say("what is reported as missing is not what was found to be")


def any3(xs):
    xs = list(xs)
    return True if True in xs else None if None in xs else False


def run_case(name, build):
    c, rule = build()
    outs = c.e.call_fn(c.st, *c.root)
    bad = []
    rule(outs, lambda m: bad.append("%s: %s" % (name, m)))
    if not outs and not c.e.panics:
        bad.append("%s: never comes to an end" % name)
    for x in c.e.panics[:3]:
        bad.append("%s: can panic: %s in %s" % (name, x[2], x[1]))
    lost(c.e)
    for x in c.e.cuts[:3]:
        raise Bad("%s: %s" % (name, str(x)[:200]))
    return sorted(set(bad)), len(outs), set(c.e.analysed)


def show(p):
    return "_" if p == "_" else str(p[1]) if p[0] in ("lit", "p") else p[1] if not p[2] else "(%s %s)" % (p[1], " ".join(show(x) for x in p[2]))


def heads(t, tagname):
    if t == NUM:
        return ["_", ("lit", 1), ("lit", 2)]
    return ["_"] + [("con", n, tuple(("p", "%s%s%d" % (tagname, n, i)) for i in range(k))) for n, k in t]


def matrices(t, n, rest):
    """rows with every head, the rest not known or without condition"""
    for k in range(n + 1):
        for hs in itertools.product(*[heads(t, "r%d" % i) for i in range(k)]):
            yield [(h,) + tuple(("p", "t%d.%d" % (i, j)) for j in range(rest)) for i, h in enumerate(hs)]


TYPES = (("a type of one value", ONE), ("a product", PAIR), ("two constructors", TWO), ("two constructors of one field", SAME), ("three constructors", THREE), ("literals", NUM))


def useful_table(mir):
    c, g = Covers(mir), []
    for tn, t in TYPES:
        for rest in (0, 1, 2):
            for rows in matrices(t, 3 if t != THREE else 4 if rest == 1 else 2, rest):
                for h in heads(t, "q"):
                    q = (h,) + tuple(("p", "q.%d" % j) for j in range(rest))
                    g.append(("%s: is (%s) new after %s" % (tn, " ".join(map(show, q)), ", ".join("(%s)" % " ".join(map(show, r)) for r in rows) or "nothing"), c.useful(t, rows, q)))
    for rows in ([], [()], [(), ()]):
        g.append(("no column: is a row new after %d" % len(rows), c.useful(None, rows, ())))
    return g


def missing_table(mir):
    c, g = Covers(mir), []
    for tn, t in TYPES:
        for rest in (0, 1, 2):
            for rows in matrices(t, 3 if t != THREE else 4 if rest == 1 else 3, rest):
                g.append(("%s: missing of %s" % (tn, ", ".join("(%s)" % " ".join(map(show, r)) for r in rows) or "%d columns" % (1 + rest)), c.missing(t, rows, 1 + rest)))
    for rows in ([], [()], [(), ()]):
        g.append(("no column: missing of %d rows" % len(rows), c.missing(None, rows, 0)))
    return g


def apart_table(mir):
    c, g = Covers(mir), []
    for tn, t in TYPES:
        for x, y in itertools.product(heads(t, "x"), heads(t, "y")):
            g.append(("%s: %s and %s apart" % (tn, show(x), show(y)), c.apart(PAT + "::is_incompatible_with", "pattern", t, x, y)))
    for n in range(4):
        x, y = (tuple(("p", "%s%d" % (k, i)) for i in range(n)) for k in "xy")
        g.append(("rows of %d apart" % n, c.apart(ROW + "::is_incompatible_with", "row", None, x, y)))
    return g


def whole_table(mir):
    c = Covers(mir)
    return [("%d clauses" % n, c.whole(n)) for n in range(5)]
