"""IR definitions and terms for the lowering checks: each case is (name, definitions, [(type, term)])."""

U, U1, U64 = "u32", "u1", "u64"


class Ids:
    def __init__(self):
        self.n = 0

    def __call__(self):
        self.n += 1
        return self.n


def leaf(name, *args, ret=U):
    return ("call", "c", name, ret, list(args))


def num(n, ty=U):
    return ("const", "int", ty, False, n)


def clos(ps, r):
    return ("clos", tuple(ps), r)


def fun(i, ps, r, env=None):
    return ("fun", i, clos(ps, r), env)


def call(f, *args):
    return ("call", "std", f, None, list(args))


def add(a, b):
    return ("binary", ("UAdd",), a, b)


def sub(a, b):
    return ("binary", ("USub",), a, b)


def load(x):
    return ("unary", ("Load",), x)


def store(v, p):
    return ("binary", ("Store",), v, p)


def alloc(x):
    return ("alloc", "Heap", x)


def pick(ids, xs, name="p"):
    """one of the terms, by external conditions"""
    if len(xs) == 1:
        return xs[0]
    return ("if", leaf(name + str(len(xs)), ret=U1), xs[0], pick(ids, xs[1:], name))


# ------------------------------------------------------------------ data types

SHAPES = {
    "one": [[]], "two": [[], []], "three": [[], [], []], "five": [[], [], [], [], []],
    "box": [[U]], "pair": [[U, U64]], "triple": [[U, U64, U]],
    "opt": [[], [U]], "some-none": [[U], []], "opt2": [[], [U, U64]], "mid": [[], [U], []],
    "either": [[U], [U64]], "either-none": [[U], [], [U64]], "same": [[U], [U]], "mixed": [[], [U], [U64, U], [U, U, U64]],
    "nine": [[U], [], [], [U64], [], [], [], [], [U, U64]],
}


def carriers():
    """ways for a value to get from where it is made to where it is matched: f(ids, ty, made, use) -> (extra defs, term);
    use(variable term) is the consumer"""
    def direct(ids, ty, made, use):
        return [], use(made)

    def let(ids, ty, made, use):
        v = ids()
        return [], ("let", [(v, ty, made)], use(("var", v, ty)))

    def param(ids, ty, made, use):
        p = ids()
        return [(90, ("fun", [(p, ty)], U, use(("var", p, ty)), False))], call(fun(90, [ty], U), made)

    def result(ids, ty, made, use):
        return [(90, ("fun", [], ty, made, False))], use(call(fun(90, [], ty)))

    def ref(ids, ty, made, use):
        v = ids()
        return [], ("let", [(v, ("ptr", ty), alloc(made))], use(load(("var", v, ("ptr", ty)))))

    def refarg(ids, ty, made, use):
        p = ids()
        return [(90, ("fun", [(p, ("ptr", ty))], U, use(load(("var", p, ("ptr", ty)))), False))], call(fun(90, [("ptr", ty)], U), alloc(made))

    def captured(ids, ty, made, use):
        v, g = ids(), ids()
        t = clos([], U)
        return [], ("let", [(v, ty, made)], ("letfun", [(g, [], [], U, use(("var", v, ty)))], call(("localfun", g, (), t))))

    def field(ids, ty, made, use):
        a, b = ids(), ids()
        return [(91, ("data", "Boxed", [[U64, ty]]))], ("match", ("data", ("id", 91), 0, [leaf("left", ret=U64), made]),
                                                        [(("pdata", ("id", 91), 0, [("pvar", a, U64, None), ("pvar", b, ty, None)]),
                                                          ("seq", [leaf("sees", ("var", a, U64), ret="unit")], use(("var", b, ty))))])

    def vfield(ids, ty, made, use):
        b = ids()
        return [(91, ("data", "Value", [[], [ty]]))], ("match", ("if", leaf("has", ret=U1), ("data", ("id", 91), 1, [made]), ("data", ("id", 91), 0, [])),
                                                       [(("pdata", ("id", 91), 1, [("pvar", b, ty, None)]), use(("var", b, ty))), (("pwild", ("id", 91)), leaf("none"))])
    return dict(direct=direct, let=let, param=param, result=result, ref=ref, refarg=refarg, captured=captured, field=field, vfield=vfield)


def make(ids, ty, cons, sub=None):
    """a value of any of the constructors, with external values in the fields"""
    def field(i, j, t):
        if sub and t in sub:
            return sub[t](ids)
        return leaf("f%d.%d" % (i, j), ret=t)
    return pick(ids, [("data", ty, i, [field(i, j, t) for j, t in enumerate(fs)]) for i, fs in enumerate(cons)])


def take(ids, ty, cons, sub=None):
    """a consumer that tells the constructors apart and sees every field"""
    def use(x):
        cl = []
        for i, fs in enumerate(cons):
            vs = [ids() for _ in fs]
            body = [sub[t](ids)(("var", v, t)) if sub and t in sub else leaf("see%d.%d" % (i, j), ("var", v, t), ret="unit") for j, (v, t) in enumerate(zip(vs, fs))]
            cl.append((("pdata", ty, i, [("pvar", v, t, None) for v, t in zip(vs, fs)]), ("seq", body, num(i)) if body else num(i)))
        return ("match", x, cl)
    return use


def data_cases(thorough):
    cs = carriers()
    for sname, cons in SHAPES.items():
        for repr in ("Boxed", "Value") + (("C",) if len(cons) == 1 and (cons[0] or sname == "one") else ()):
            names = list(cs) if thorough or sname in ("opt", "either", "box", "mixed") else ["param", "ref", "field"] if sname in ("pair", "mid", "five") else ["param"]
            for cn in names:
                ids = Ids()
                ty = ("id", 50)
                defs, term = cs[cn](ids, ty, make(ids, ty, cons), take(ids, ty, cons))
                yield "data:%s:%s:%s" % (sname, repr, cn), [(50, ("data", repr, cons))] + defs, [(U, term)]
    # data inside data
    for r1 in ("Boxed", "Value"):
        for r2 in ("Boxed", "Value"):
            for n1, n2 in (("box", "box"), ("box", "opt"), ("opt", "box"), ("opt", "either"), ("pair", "opt"), ("either", "one"), ("box", "two"), ("two", "opt"), ("mid", "pair")):
                if not thorough and r1 != r2 and n1 not in ("opt", "box"):
                    continue
                ids = Ids()
                inner, outer = ("id", 51), ("id", 50)
                c2 = SHAPES[n2]
                c1 = [[inner if t == U else t for t in fs] for fs in SHAPES[n1]]
                if n1 == "two":
                    c1 = [[inner, inner], []]
                term = take(ids, outer, c1, {inner: lambda ids: take(ids, inner, c2)})(make(ids, outer, c1, {inner: lambda ids: make(ids, inner, c2)}))
                yield "nested:%s:%s:%s:%s" % (n1, r1, n2, r2), [(50, ("data", r1, c1)), (51, ("data", r2, c2))], [(U, term)]
    # recursion: lists, and two types that contain one another
    for repr, elem in (("Boxed", ("id", 50)), ("Value", ("ptr", ("id", 50)))):
        ids = Ids()
        ty = ("id", 50)
        wrap = (lambda x: x) if repr == "Boxed" else alloc
        lst = ("data", ty, 0, [])
        for i in range(2):
            lst = ("if", leaf("more%d" % i, ret=U1), ("data", ty, 1, [leaf("item%d" % i), wrap(lst)]), ("data", ty, 0, []))
        p, h, t = ids(), ids(), ids()
        tail = ("var", t, elem) if repr == "Boxed" else load(("var", t, elem))
        body = ("match", ("var", p, ty), [(("pdata", ty, 0, []), num(0)),
                                         (("pdata", ty, 1, [("pvar", h, U, None), ("pvar", t, elem, None)]), add(("var", h, U), call(fun(60, [ty], U), tail)))])
        yield "list:%s" % repr, [(50, ("data", repr, [[], [U, elem]])), (60, ("fun", [(p, ty)], U, body, False))], [(U, call(fun(60, [ty], U), lst))]
    for repr in ("Boxed", "Value"):
        ids = Ids()
        a, b = ("id", 50), ("id", 51)
        rb, ra = (b, a) if repr == "Boxed" else (("ptr", b), ("ptr", a))
        wrap = (lambda x: x) if repr == "Boxed" else alloc
        un = (lambda v, t: ("var", v, t)) if repr == "Boxed" else (lambda v, t: load(("var", v, ("ptr", t))))
        x, y, z = ids(), ids(), ids()
        term = ("match", ("data", a, 0, [wrap(("data", b, 1, [leaf("n"), wrap(("data", a, 1, [leaf("m", ret=U64)]))]))]),
                [(("pdata", a, 0, [("pvar", x, rb, None)]),
                  ("match", un(x, b), [(("pdata", b, 1, [("pvar", y, U, None), ("pvar", z, ra, None)]),
                                       ("match", un(z, a), [(("pdata", a, 1, [("pwild", U64)]), ("var", y, U)), (("pwild", a), num(1))])), (("pwild", b), num(2))])),
                 (("pwild", a), num(3))])
        yield "mutual:%s" % repr, [(50, ("data", repr, [[rb], [U64]])), (51, ("data", repr, [[], [U, ra]]))], [(U, term)]
    # more constructors than a byte can tell apart
    for repr in ("Boxed", "Value"):
        for n, k in ((256, 3), (257, 0), (300, 299)):
            for full in ((), (k,), (k, (k + 1) % n)):
                ids = Ids()
                ty = ("id", 50)
                cons = [[U] if i in full else [] for i in range(n)]
                at = sorted({0, 1, 43, 44, 255, n - 1, k, (k + 1) % n})
                made = pick(None, [("data", ty, i, [leaf("v%d" % i) for _ in cons[i]]) for i in at])
                use = []
                for i in at[:-1]:
                    vs = [ids() for _ in cons[i]]
                    use.append((("pdata", ty, i, [("pvar", v, U, None) for v in vs]), leaf("is%d" % i, *[("var", v, U) for v in vs])))
                yield "tags:%s:%d:%d" % (repr, n, len(full)), [(50, ("data", repr, cons)), (60, ("fun", [(90, ty)], U, ("match", ("var", 90, ty), use + [(("pwild", ty), num(n))]), False))], [(U, call(fun(60, [ty], U), made))]
    # types of one field that refer to each other in a circle
    for n, repr in ((2, "Value"), (2, "Boxed"), (3, "Value")):
        tys = [("id", 50 + i) for i in range(n)]
        nxt = lambda i: tys[(i + 1) % n] if repr == "Boxed" and i != n - 1 else ("ptr", tys[(i + 1) % n])
        mkc = lambda i: ("data", tys[i], 0, [("nullary", ("Null", tys[0]))]) if i == n - 1 else ("data", tys[i], 0, [mkc(i + 1) if repr == "Boxed" else alloc(mkc(i + 1))])
        pat = lambda i, p: ("pdata", tys[i], 0, [p]) if i == n - 1 else ("pdata", tys[i], 0, [pat(i + 1, p) if repr == "Boxed" else ("pderef", pat(i + 1, p))])
        yield "mutual:one:%d:%s" % (n, repr), [(50 + i, ("data", repr, [[nxt(i)]])) for i in range(n)], [
            (U, ("match", mkc(0), [(pat(0, ("pnonnull", ("pwild", tys[0]))), num(1)), (pat(0, ("pnull", tys[0])), num(2))]))]
    # a type that only refers to itself
    ids = Ids()
    ty = ("id", 50)
    v = ids()
    yield "self:Value", [(50, ("data", "Value", [[("ptr", ty)]]))], [
        (U, ("match", ("data", ty, 0, [("nullary", ("Null", ty))]), [(("pdata", ty, 0, [("pnull", ty)]), num(1)), (("pdata", ty, 0, [("pvar", v, ("ptr", ty), None)]), num(2))]))]
    ids = Ids()
    yield "self:Boxed", [(50, ("data", "Boxed", [[("ptr", ty), U]]))], [
        (U, ("match", ("data", ty, 0, [("nullary", ("Null", ty)), leaf("x")]), [(("pdata", ty, 0, [("pnonnull", ("pwild", ty)), ("pwild", U)]), num(2)),
                                                                             (("pdata", ty, 0, [("pnull", ty), ("pvar", 9, U, None)]), ("var", 9, U))]))]
    # used only as a type
    yield "phantom", [(50, ("data", "Boxed", [[], [U]])), (60, ("fun", [(1, ("ptr", ("id", 50)))], U64, ("unary", ("PtrToI",), ("var", 1, ("ptr", ("id", 50)))), False))], [
        (U, ("seq", [leaf("keep", fun_addr(), ret="unit")], num(1)))]


def fun_addr():
    return leaf("opaque", ret=U64)


# ------------------------------------------------------------------ patterns

def opt(t=("id", 50)):
    return t


def pattern_cases(thorough):
    P, O, E = ("id", 52), ("id", 50), ("id", 51)

    def defs(r):
        return [(50, ("data", r, [[], [U]])), (51, ("data", r, [[], [], []])), (52, ("data", r, [[E, O]])), (53, ("data", r, [[U, U]])), (54, ("data", r, [[U], [O, U], []]))]
    W = ("pwild", U)

    def o(ids, s):
        """pattern of an option by a short description"""
        if s == "_":
            return ("pwild", O), []
        if s == "x":
            v = ids()
            return ("pvar", v, O, None), []
        if s == "n":
            return ("pdata", O, 0, []), []
        if s == "s":
            return ("pdata", O, 1, [W]), []
        if s == "v":
            v = ids()
            return ("pdata", O, 1, [("pvar", v, U, None)]), [v]
        if s[0] == "c":
            return ("pdata", O, 1, [("pconst", num(int(s[1:])))]), []
        if s[0] == "a":
            v = ids()
            return ("pdata", O, 1, [("pvar", v, U, ("pconst", num(int(s[1:]))))]), [v]
        raise KeyError(s)

    def e(s):
        return ("pwild", E) if s == "_" else ("pdata", E, int(s), [])

    def body(i, vs):
        return leaf("body%d" % i, *[("var", v, U) for v in vs])
    lists = ["0n,1v,2s", "0v,_n,1_,__", "_n,0v,_v", "0c1,0c2,1c1,_v,__", "_c1,_c1,_c2,_n,_v", "1_,_c5,_v,__", "0a3,_a3,_v,__", "2c1,2n,_c1,0_,__", "0c1,_n", "_v,_n,0c1", "__,0n", "0_,1_,2_",
             "1c7,0c7,_c7,1v,__", "_x,0n", "0s,1s,__", "_c0,_s,0n,__"]
    for li, l in enumerate(lists):
        for r in ("Boxed", "Value"):
            if r == "Value" and not thorough and li % 3:
                continue
            ids = Ids()
            cl = []
            for i, s in enumerate(l.split(",")):
                p, vs = o(ids, s[1:])
                cl.append((("pdata", P, 0, [e(s[0]), p]), body(i, vs)))
            tgt = ("data", P, 0, [pick(ids, [("data", E, i, []) for i in range(3)], "e"), pick(ids, [("data", O, 0, []), ("data", O, 1, [leaf("val")])], "o")])
            yield "pat:%s:%s" % (l, r), defs(r), [(U, ("match", tgt, cl))]
    # pairs of integers: constants in both columns
    for li, l in enumerate(["1 1,1 2,2 1,_ _", "1 _,_ 1,2 2,_ _", "_ 1,1 1,1 _,_ _", "v 1,1 v,v v", "1 a1,a1 1,v v", "1 2,1 2,_ 3,4 _", "1 1,2 1,1 2,2 2,3 3"]):
        ids = Ids()
        cl = []
        for i, s in enumerate(l.split(",")):
            ps, vs = [], []
            for c in s.split():
                if c[0] in "va":
                    v = ids()
                    vs.append(v)
                    ps.append(("pvar", v, U, ("pconst", num(int(c[1:]))) if c[0] == "a" else None))
                else:
                    ps.append(W if c == "_" else ("pconst", num(int(c))))
            cl.append((("pdata", ("id", 53), 0, ps), body(i, vs)))
        yield "ints:%s" % l, defs("Value" if li % 2 else "Boxed"), [(U, ("match", ("data", ("id", 53), 0, [leaf("x"), leaf("y")]), cl))]
    # constants of every kind
    ids = Ids()
    for name, ty, consts in (("bool", U1, [num(1, U1), num(0, U1)]), ("char", "char", [("const", "char", 97), ("const", "char", 98)]), ("string", "string", [("const", "str", "a"), ("const", "str", "b"), ("const", "str", "a")]),
                             ("f64", "f64", [("const", "fp", "f64", 1.0), ("const", "fp", "f64", 2.0)]), ("s8", "s8", [("const", "int", "s8", True, 2 ** 64 - 1), ("const", "int", "s8", True, 1)]), ("u64", U64, [num(2 ** 40, U64), num(0, U64)]),
                             ("unit", "unit", [("const", "unit")])):
        for last in ("wild", "var", "none"):
            if last == "none" and name not in ("bool", "unit"):
                continue
            v = ids()
            cl = [(("pconst", c), num(i)) for i, c in enumerate(consts)]
            if last != "none":
                cl.append(((("pwild", ty) if last == "wild" else ("pvar", v, ty, None)), num(9) if last == "wild" else leaf("other", ("var", v, ty))))
            yield "const:%s:%s" % (name, last), [], [(U, ("match", leaf("x", ret=ty), cl))]
    # pointers
    T = ("ptr", U)
    for name, cl in (("null", [(("pnull", U), num(1)), (("pnonnull", W), num(2))]),
                     ("nonnull", [(("pnonnull", ("pvar", 1, U, None)), ("var", 1, U)), (("pnull", U), num(2))]),
                     ("nn-const", [(("pnonnull", ("pconst", num(4))), num(1)), (("pnull", U), num(2)), (("pnonnull", ("pvar", 1, U, None)), ("var", 1, U))]),
                     ("n-nn-const", [(("pnull", U), num(2)), (("pnonnull", ("pconst", num(4))), num(1)), (("pnonnull", ("pconst", num(5))), num(7)), (("pwild", T), num(3))]),
                     ("wild-null", [(("pnonnull", W), num(1)), (("pwild", T), num(2))]),
                     ("as", [(("pvar", 1, T, ("pnonnull", ("pvar", 2, U, None))), leaf("both", ("var", 1, T), ("var", 2, U))), (("pvar", 3, T, None), leaf("nothing", ("var", 3, T)))])):
        for src in ("leaf", "own", "field"):
            if src == "field":
                c2 = [(("pdata", ("id", 57), 0, [p, ("pwild", U)]), b) for p, b in cl]
                yield "ptr:%s:%s" % (name, src), [(57, ("data", "Value", [[T, U]]))], [(U, ("match", ("data", ("id", 57), 0, [leaf("q", ret=T), leaf("r")]), c2))]
                continue
            x = leaf("q", ret=T) if src == "leaf" else ("if", leaf("isnull", ret=U1), ("nullary", ("Null", U)), alloc(leaf("x")))
            yield "ptr:%s:%s" % (name, src), [], [(U, ("match", x, cl))]
    yield "deref", [], [(U, ("match", alloc(leaf("x")), [(("pderef", ("pconst", num(1))), num(5)), (("pderef", ("pvar", 1, U, None)), ("var", 1, U))]))]
    yield "deref:deref", [], [(U, ("match", alloc(alloc(leaf("x"))), [(("pderef", ("pderef", ("pconst", num(1)))), num(5)), (("pderef", ("pvar", 2, T, ("pderef", ("pvar", 1, U, None)))), add(("var", 1, U), load(("var", 2, T))))]))]
    yield "syntax", [], [(U, ("match", ("syntax", leaf("x")), [(("psyntax", ("pconst", num(1))), num(5)), (("psyntax", ("pvar", 1, U, None)), ("var", 1, U))]))]
    # a value bound at every level
    D = ("id", 54)
    for r in ("Boxed", "Value"):
        cl = [(("pvar", 1, D, ("pdata", D, 1, [("pvar", 2, O, ("pdata", O, 1, [("pvar", 3, U, ("pconst", num(6)))])), ("pvar", 4, U, None)])),
               ("seq", [leaf("deep", ("var", 3, U), ("var", 4, U), ret="unit")], call(fun(60, [D, O], U), ("var", 1, D), ("var", 2, O)))),
              (("pdata", D, 1, [("pdata", O, 1, [("pvar", 5, U, None)]), ("pvar", 6, U, ("pconst", num(2)))]), add(("var", 5, U), ("var", 6, U))),
              (("pdata", D, 0, [("pvar", 7, U, None)]), ("var", 7, U)), (("pvar", 8, D, None), call(fun(60, [D, O], U), ("var", 8, D), ("data", O, 0, [])))]
        f = ("fun", [(20, D), (21, O)], U, ("match", ("data", ("id", 55), 0, [("var", 20, D), ("var", 21, O)]),
             [(("pdata", ("id", 55), 0, [("pdata", D, 1, [("pwild", O), ("pvar", 22, U, None)]), ("pdata", O, 1, [("pvar", 23, U, None)])]), leaf("in", ("var", 22, U), ("var", 23, U))),
              (("pdata", ("id", 55), 0, [("pdata", D, 2, []), ("pwild", O)]), num(77)), (("pwild", ("id", 55)), num(78))]), False)
        tgt = pick(None, [("data", D, 0, [leaf("a")]), ("data", D, 1, [pick(None, [("data", O, 0, []), ("data", O, 1, [leaf("b")])], "o"), leaf("c")]), ("data", D, 2, [])])
        yield "as:%s" % r, defs(r) + [(55, ("data", "Value", [[D, O]])), (60, f)], [(U, ("match", tgt, cl))]
    # bodies and targets that do not return, nested matches, matches as operands
    ids = Ids()
    m = lambda x, b1, b2: ("match", x, [(("pconst", num(1)), b1), (("pwild", U), b2)])
    ret = ("return", leaf("early"))
    for name, b in (("return-first", add(m(leaf("x"), ret, num(2)), leaf("y"))), ("return-last", add(m(leaf("x"), num(2), ret), leaf("y"))), ("return-both", ("seq", [m(leaf("x"), ret, ("return", num(5)))], num(1))),
                    ("target-returns", ("seq", [m(("return", num(3)), num(1), num(2))], num(4))), ("never", m(leaf("x"), num(1), ("never",))),
                    ("panic", m(leaf("x"), ("unary", ("Panic",), ("const", "str", "no")), num(2))),
                    ("in-target", m(m(leaf("x"), num(1), num(2)), leaf("a"), leaf("b"))), ("in-body", m(leaf("x"), m(leaf("y"), num(1), num(2)), m(leaf("z"), num(3), num(4)))),
                    ("operands", add(m(leaf("x"), num(1), num(2)), m(leaf("y"), num(3), num(4)))), ("cond", ("if", m2(leaf("x")), leaf("a"), leaf("b"))),
                    ("arg", leaf("f", m(leaf("x"), num(1), num(2)), m(leaf("y"), num(3), num(4)))), ("loop", ("seq", [("while", m2(leaf("x")), ("seq", [m(leaf("y"), leaf("u"), leaf("w"))], ("const", "unit")))], num(1))),
                    ("init", ("let", [(40, U, m(leaf("x"), num(1), num(2)))], add(("var", 40, U), m(("var", 40, U), leaf("a"), leaf("b"))))),
                    ("alloc", load(alloc(m(leaf("x"), num(1), num(2))))), ("nested-return", m(leaf("x"), m(leaf("y"), ret, num(6)), num(7))),
                    ("let-target", ("match", ("let", [(41, U, leaf("x"))], ("var", 41, U)), [(("pvar", 42, U, ("pconst", num(3))), ("var", 42, U)), (("pvar", 43, U, None), add(("var", 43, U), num(1)))]))):
        yield "flow:%s" % name, [(60, ("fun", [], U, b, False))], [(U, add(call(fun(60, [], U)), leaf("after")))]
    for name, b in (("and", ("and", leaf("a", ret=U1), leaf("b", ret=U1))), ("or", ("or", leaf("a", ret=U1), leaf("b", ret=U1))), ("and-or", ("and", ("or", leaf("a", ret=U1), leaf("b", ret=U1)), leaf("c", ret=U1))),
                    ("or-and", ("or", ("and", leaf("a", ret=U1), leaf("b", ret=U1)), ("and", leaf("c", ret=U1), leaf("d", ret=U1)))), ("not", ("unary", ("Not",), ("and", leaf("a", ret=U1), ("unary", ("Not",), leaf("b", ret=U1)))))):
        yield "logic:%s" % name, [], [(U, ("if", b, leaf("yes"), leaf("no")))]
    yield "logic:value", [(60, ("fun", [], U1, ("or", leaf("a", ret=U1), ("and", leaf("b", ret=U1), ("return", leaf("c", ret=U1)))), False))], [(U, ("if", call(fun(60, [], U1)), leaf("yes"), leaf("no")))]


def m2(x):
    return ("match", x, [(("pconst", num(1)), num(1, U1)), (("pconst", num(2)), leaf("maybe", ret=U1)), (("pwild", U), num(0, U1))])


# ------------------------------------------------------------------ functions

def closure_cases(thorough):
    T0, T1 = clos([], U), clos([U], U)
    V = lambda i, t=U: ("var", i, t)
    L = lambda i, t=T1, a=(): ("localfun", i, a, t)
    yield "clos:plain", [], [(U, ("letfun", [(1, [], [(2, U)], U, add(V(2), num(1)))], call(L(1), leaf("x"))))]
    yield "clos:capture", [], [(U, ("let", [(5, U, leaf("c"))], ("letfun", [(1, [], [(2, U)], U, sub(V(2), V(5)))], call(L(1), leaf("x")))))]
    for n in range(6):
        ps = [(20 + j, U if j % 2 == 0 else U64) for j in range(n)]
        yield "clos:params%d" % n, [], [(U, ("let", [(7, U, leaf("c"))], ("letfun", [(1, [], ps, U, leaf("all", *([V(7)] + [V(j, t) for j, t in ps]))), (2, [], ps, U, leaf("none", *[V(j, t) for j, t in ps]))],
            sub(call(("localfun", 1, (), clos([t for _, t in ps], U)), *[leaf("x%d" % j, ret=t) for j, t in ps]), call(("localfun", 2, (), clos([t for _, t in ps], U)), *[leaf("y%d" % j, ret=t) for j, t in ps])))))]
    yield "clos:capture3", [], [(U, ("let", [(7, U, leaf("c")), (5, U64, leaf("d", ret=U64)), (6, U, leaf("e"))], ("letfun", [(1, [], [(2, U)], U, leaf("all", V(2), V(5, U64), V(6), V(7)))], call(L(1), leaf("x")))))]
    yield "clos:capture-param", [(60, ("fun", [(7, U), (5, U)], U, ("letfun", [(1, [], [], U, sub(V(5), V(7)))], call(L(1, T0))), False))], [(U, call(fun(60, [U, U], U), leaf("a"), leaf("b")))]
    yield "clos:escape", [(60, ("fun", [(7, U)], T1, ("letfun", [(1, [], [(2, U)], U, sub(V(2), V(7)))], L(1)), False))], [
        (U, ("let", [(20, T1, call(fun(60, [U], T1), leaf("a"))), (21, T1, call(fun(60, [U], T1), leaf("b")))], sub(call(V(20, T1), leaf("x")), call(V(21, T1), leaf("y")))))]
    yield "clos:arg", [(60, ("fun", [(7, T1), (8, U)], U, call(V(7, T1), call(V(7, T1), V(8))), False))], [
        (U, ("let", [(5, U, leaf("c"))], ("letfun", [(1, [], [(2, U)], U, leaf("step", V(2), V(5)))], call(fun(60, [T1, U], U), L(1), leaf("x")))))]
    yield "clos:nested", [], [(U, ("let", [(5, U, leaf("c"))], ("letfun", [(1, [], [(2, U)], T0, ("letfun", [(3, [], [], U, leaf("in", V(2), V(5)))], L(3, T0)))], call(call(L(1, clos([U], T0)), leaf("x"))))))]
    yield "clos:nested2", [], [(U, ("let", [(5, U, leaf("c"))], ("letfun", [(1, [], [(2, U)], U, ("let", [(4, U, leaf("d", V(5)))], ("letfun", [(3, [], [(6, U)], U, leaf("in", V(2), V(4), V(5), V(6)))], call(L(3), V(2)))))], call(L(1), leaf("x")))))]
    yield "clos:calls-outer", [], [(U, ("let", [(5, U, leaf("c"))], ("letfun", [(1, [], [(2, U)], U, add(V(2), V(5)))], ("letfun", [(3, [], [(4, U)], U, call(L(1), V(4)))], call(L(3), leaf("x"))))))]
    yield "clos:outer-recursive", [], [(U, ("let", [(5, U, leaf("c"))], ("letfun", [(1, [], [(2, U)], U, ("letfun", [(3, [], [], U, ("if", leaf("go", V(2), ret=U1), call(L(1), add(V(2), V(5))), V(2)))], call(L(3, T0))))], call(L(1), leaf("x")))))]
    yield "clos:recursive", [], [(U, ("letfun", [(1, [], [(2, U)], U, ("if", leaf("go", V(2), ret=U1), call(L(1), add(V(2), num(1))), V(2)))], call(L(1), leaf("x"))))]
    yield "clos:recursive-capture", [], [(U, ("let", [(5, U, leaf("c"))], ("letfun", [(1, [], [(2, U)], U, ("if", leaf("go", V(2), ret=U1), call(L(1), add(V(2), V(5))), V(2)))], call(L(1), leaf("x")))))]
    yield "clos:mutual", [], [(U, ("let", [(5, U, leaf("c"))], ("letfun", [(1, [], [(2, U)], U, ("if", leaf("even", V(2), ret=U1), call(L(3), V(2)), num(0))), (3, [], [(4, U)], U, ("if", leaf("odd", V(4), V(5), ret=U1), call(L(1), V(4)), num(1)))],
                                                                   add(call(L(1), leaf("x")), call(L(3), leaf("y"))))))]
    yield "clos:mutual-plain", [], [(U, ("letfun", [(1, [], [(2, U)], U, ("if", leaf("even", V(2), ret=U1), call(L(3), V(2)), num(0))), (3, [], [(4, U)], U, ("if", leaf("odd", V(4), ret=U1), call(L(1), V(4)), num(1)))], call(L(1), leaf("x"))))]
    yield "clos:one-captures", [], [(U, ("let", [(5, U, leaf("c"))], ("letfun", [(1, [], [(2, U)], U, add(V(2), num(3))), (3, [], [(4, U)], U, add(call(L(1), V(4)), V(5)))], sub(call(L(3), leaf("x")), call(L(1), leaf("y"))))))]
    yield "clos:two-groups", [], [(U, ("let", [(5, U, leaf("c"))], ("letfun", [(1, [], [(2, U)], U, sub(V(2), V(5)))], ("let", [(6, U, leaf("d"))], ("letfun", [(3, [], [(4, U)], U, sub(V(4), V(6)))], sub(call(L(1), leaf("x")), call(L(3), leaf("y"))))))))]
    yield "clos:value-time", [], [(U, ("let", [(5, ("ptr", U), alloc(leaf("c")))], ("letfun", [(1, [], [], U, load(V(5, ("ptr", U))))], ("seq", [store(leaf("d"), V(5, ("ptr", U)))], call(L(1, T0))))))]
    yield "clos:shared-cell", [], [(U, ("let", [(5, ("ptr", U), alloc(leaf("c")))], ("letfun", [(1, [], [], "unit", store(add(load(V(5, ("ptr", U))), num(1)), V(5, ("ptr", U))))],
                                        ("seq", [call(L(1, clos([], "unit"))), call(L(1, clos([], "unit")))], load(V(5, ("ptr", U)))))))]
    yield "clos:let-in-body", [], [(U, ("letfun", [(1, [], [(2, U)], U, ("let", [(3, U, leaf("a", V(2)))], ("let", [(4, U, leaf("b", V(3)))], sub(V(3), V(4)))))], call(L(1), leaf("x"))))]
    yield "clos:match-bound", [(50, ("data", "Boxed", [[U, U]]))], [(U, ("match", ("data", ("id", 50), 0, [leaf("a"), leaf("b")]), [
        (("pdata", ("id", 50), 0, [("pvar", 5, U, None), ("pvar", 6, U, None)]), ("letfun", [(1, [], [], U, sub(V(5), V(6)))], call(L(1, T0))))]))]
    yield "clos:match-inside", [(50, ("data", "Boxed", [[], [U]]))], [(U, ("let", [(9, U, leaf("k"))], ("letfun", [(1, [], [(2, ("id", 50))], U, ("match", V(2, ("id", 50)), [
        (("pdata", ("id", 50), 1, [("pvar", 5, U, None)]), sub(V(5), V(9))), (("pwild", ("id", 50)), V(9))]))], call(L(1, clos([("id", 50)], U)), pick(None, [("data", ("id", 50), 0, []), ("data", ("id", 50), 1, [leaf("v")])])))))]
    yield "clos:data-capture", [(50, ("data", "Value", [[], [U, U]]))], [(U, ("let", [(9, ("id", 50), pick(None, [("data", ("id", 50), 0, []), ("data", ("id", 50), 1, [leaf("v"), leaf("w")])]))], ("letfun", [(1, [], [], U, ("match", V(9, ("id", 50)), [
        (("pdata", ("id", 50), 1, [("pvar", 5, U, None), ("pvar", 6, U, None)]), sub(V(5), V(6))), (("pwild", ("id", 50)), num(0))]))], call(L(1, T0)))))]
    yield "clos:return", [], [(U, ("letfun", [(1, [], [(2, U)], U, ("seq", [("if", leaf("q", V(2), ret=U1), ("return", leaf("early")), ("const", "unit"))], leaf("late")))], add(call(L(1), leaf("x")), leaf("after"))))]
    yield "clos:loop", [], [(U, ("let", [(5, ("ptr", T0), alloc(("localfun0",))), ], num(0)))] if False else [(U, ("let", [(5, ("ptr", U), alloc(num(0)))], ("seq", [("while", leaf("go", ret=U1), ("let", [(6, U, leaf("it"))], ("letfun", [(1, [], [(2, U)], U, add(V(2), V(6)))],
        store(call(L(1), load(V(5, ("ptr", U)))), V(5, ("ptr", U))))))], load(V(5, ("ptr", U))))))]
    yield "clos:kept-in-data", [(50, ("data", "Boxed", [[T1, U]]))], [(U, ("let", [(5, U, leaf("c"))], ("letfun", [(1, [], [(2, U)], U, sub(V(2), V(5)))], ("match", ("data", ("id", 50), 0, [L(1), leaf("x")]), [
        (("pdata", ("id", 50), 0, [("pvar", 7, T1, None), ("pvar", 8, U, None)]), call(V(7, T1), V(8)))]))))]
    yield "clos:captures-clos", [], [(U, ("let", [(5, U, leaf("c"))], ("letfun", [(1, [], [(2, U)], U, sub(V(2), V(5)))], ("let", [(6, T1, L(1))], ("letfun", [(3, [], [(4, U)], U, call(V(6, T1), call(V(6, T1), V(4))))], call(L(3), leaf("x")))))))]
    yield "clos:static", [(60, ("fun", [(2, U)], U, leaf("top", V(2)), False))], [(U, ("let", [(6, T1, fun(60, [U], U))], ("letfun", [(3, [], [(4, U)], U, call(V(6, T1), V(4)))], call(L(3), leaf("x")))))]
    yield "clos:unused", [], [(U, ("let", [(5, U, leaf("c"))], ("letfun", [(1, [], [(2, U)], U, sub(V(2), V(5)))], leaf("x"))))]
    # a generic local function
    G = 70
    gt = ("id", G)
    yield "clos:generic", [], [(U, ("let", [(5, U, leaf("c"))], ("letfun", [(1, [G], [(2, gt), (3, U)], U, ("seq", [leaf("keep", V(2, gt), ret="unit")], sub(V(3), V(5))))],
        add(call(L(1, clos([U64, U], U), (U64,)), leaf("w", ret=U64), leaf("x")), call(L(1, clos([U, U], U), (U,)), leaf("y"), leaf("z"))))))]
    yield "clos:generic-plain", [], [(U, ("letfun", [(1, [G], [(2, gt)], gt, V(2, gt))], ("seq", [leaf("keep", call(L(1, clos([U64], U64), (U64,)), leaf("w", ret=U64)), ret="unit")], call(L(1, clos([U], U), (U,)), leaf("x")))))]
    yield "clos:generic-nested", [], [(U, ("let", [(5, U, leaf("c"))], ("letfun", [(1, [G], [(2, gt)], U, ("letfun", [(3, [], [], U, leaf("both", V(2, gt), V(5)))], call(L(3, T0))))],
        add(call(L(1, clos([U64], U), (U64,)), leaf("w", ret=U64)), call(L(1, clos([U], U), (U,)), leaf("y"))))))]
    yield "clos:generic-recursive", [], [(U, ("letfun", [(1, [G], [(2, gt), (3, U)], U, ("if", leaf("go", V(2, gt), V(3), ret=U1), call(L(1, clos([gt, U], U), (gt,)), V(2, gt), add(V(3), num(1))), V(3)))],
        add(call(L(1, clos([U64, U], U), (U64,)), leaf("w", ret=U64), leaf("x")), num(1))))]


def generic_cases(thorough):
    V = lambda i, t=U: ("var", i, t)
    A, B_ = ("id", 70), ("id", 71)
    opt = lambda t: ("inst", ("id", 50), (t,))
    odef = lambda r="Boxed": (50, ("generic", [70], ("data", r, [[], [A]])))
    unwrap = (60, ("generic", [71], ("fun", [(1, opt(B_)), (2, B_)], B_, ("match", V(1, opt(B_)), [(("pdata", opt(B_), 1, [("pvar", 3, B_, None)]), V(3, B_)), (("pdata", opt(B_), 0, []), V(2, B_))]), False)))

    def inst(i, args, ps, r):
        return ("fun", ("inst", ("id", i), tuple(args)), clos(ps, r), None)
    mk = lambda t: pick(None, [("data", opt(t), 0, []), ("data", opt(t), 1, [leaf("v", ret=t)])])
    for r in ("Boxed", "Value"):
        yield "gen:opt:%s" % r, [odef(r), unwrap], [(U, call(inst(60, [U], [opt(U), U], U), mk(U), leaf("d")))]
        yield "gen:opt2:%s" % r, [odef(r), unwrap], [(U, ("seq", [leaf("w", call(inst(60, [U64], [opt(U64), U64], U64), mk(U64), leaf("e", ret=U64)), ret="unit")], call(inst(60, [U], [opt(U), U], U), mk(U), leaf("d"))))]
        oo = opt(opt(U))
        yield "gen:opt-opt:%s" % r, [odef(r), unwrap], [(U, call(inst(60, [U], [opt(U), U], U), call(inst(60, [opt(U)], [oo, opt(U)], opt(U)), pick(None, [("data", oo, 0, []), ("data", oo, 1, [mk(U)])], "q"), ("data", opt(U), 1, [leaf("deft")])), leaf("d")))]
    # aliases
    yield "gen:alias", [odef(), unwrap, (51, ("alias", U))], [(U, call(inst(60, [("id", 51)], [opt(("id", 51)), ("id", 51)], ("id", 51)), mk(U), leaf("d")))]
    yield "gen:alias-alias", [odef(), unwrap, (52, ("alias", ("id", 51))), (51, ("alias", opt(U)))], [(U, call(inst(60, [U], [("id", 52), U], U), mk(U), leaf("d")))]
    yield "gen:alias-gen", [odef(), unwrap, (51, ("generic", [72], ("alias", opt(opt(("id", 72))))))], [
        (U, call(inst(60, [U], [opt(U), U], U), call(inst(60, [opt(U)], [("inst", ("id", 51), (U,)), opt(U)], opt(U)), pick(None, [("data", opt(opt(U)), 0, []), ("data", opt(opt(U)), 1, [mk(U)])], "q"), ("data", opt(U), 0, [])), leaf("d")))]
    # instances: tables of functions
    yield "gen:table", [(51, ("table", [(80, ("id", 61)), (81, ("id", 62))])), (61, ("fun", [(1, U)], U, leaf("m1", V(1)), False)), (62, ("fun", [(2, U)], U, leaf("m2", V(2)), False))], [
        (U, add(call(("fun", ("get", ("id", 51), 80), clos([U], U), None), leaf("x")), call(("fun", ("get", ("id", 51), 81), clos([U], U), None), leaf("y"))))]
    yield "gen:table-param", [(51, ("table", [(80, ("id", 61))])), (52, ("table", [(80, ("id", 62))])), (61, ("fun", [(1, U)], U, leaf("m1", V(1)), False)), (62, ("fun", [(2, U)], U, leaf("m2", V(2)), False)),
                              (60, ("generic", [71], ("fun", [(3, U)], U, call(("fun", ("get", B_, 80), clos([U], U), None), V(3)), False)))], [
        (U, sub(call(inst(60, [("id", 51)], [U], U), leaf("x")), call(inst(60, [("id", 52)], [U], U), leaf("y"))))]
    yield "gen:table-gen", [(51, ("generic", [72], ("table", [(80, ("inst", ("id", 61), (("id", 72),)))]))), (61, ("generic", [73], ("fun", [(1, ("id", 73))], ("id", 73), V(1, ("id", 73)), False)))], [
        (U, call(("fun", ("get", ("inst", ("id", 51), (U,)), 80), clos([U], U), None), leaf("x")))]
    yield "gen:table-super", [(51, ("table", [(80, ("id", 61)), (82, ("id", 52))])), (52, ("table", [(83, ("id", 62))])), (61, ("fun", [(1, U)], U, leaf("m1", V(1)), False)), (62, ("fun", [(2, U)], U, leaf("m2", V(2)), False)),
                              (60, ("generic", [71], ("fun", [(3, U)], U, call(("fun", ("get", ("get", B_, 82), 83), clos([U], U), None), call(("fun", ("get", B_, 80), clos([U], U), None), V(3))), False)))], [
        (U, call(inst(60, [("id", 51)], [U], U), leaf("x")))]
    yield "gen:table-type", [(51, ("table", [(80, U64)])), (60, ("generic", [71], ("fun", [(3, ("get", B_, 80))], ("get", B_, 80), V(3, ("get", B_, 80)), False)))], [
        (U64, call(inst(60, [("id", 51)], [U64], U64), leaf("x", ret=U64)))]
    yield "gen:default-method", [(51, ("table", [(80, ("id", 61)), (81, ("inst", ("id", 60), (("id", 51),)))])), (61, ("fun", [(1, U)], U, leaf("m1", V(1)), False)),
                                 (60, ("generic", [71], ("fun", [(3, U)], U, call(("fun", ("get", B_, 80), clos([U], U), None), add(V(3), num(1))), False)))], [
        (U, call(("fun", ("get", ("id", 51), 81), clos([U], U), None), leaf("x")))]
    # recursion through instances
    yield "gen:recursive", [(60, ("generic", [71], ("fun", [(1, B_), (2, U)], U, ("if", leaf("go", V(1, B_), V(2), ret=U1), call(inst(60, [B_], [B_, U], U), V(1, B_), add(V(2), num(1))), V(2)), False)))], [
        (U, add(call(inst(60, [U64], [U64, U], U), leaf("a", ret=U64), leaf("x")), call(inst(60, [U], [U, U], U), leaf("b"), leaf("y"))))]
    yield "gen:two-params", [(60, ("generic", [71, 72], ("fun", [(1, B_), (2, ("id", 72))], ("id", 72), ("seq", [leaf("keep", V(1, B_), ret="unit")], V(2, ("id", 72))), False)))], [
        (U, ("seq", [leaf("k2", call(inst(60, [U, U64], [U, U64], U64), leaf("a"), leaf("b", ret=U64)), ret="unit")], call(inst(60, [U64, U], [U64, U], U), leaf("c", ret=U64), leaf("d"))))]
    yield "gen:swap", [(50, ("generic", [70, 71], ("data", "Value", [[A, B_]]))), (60, ("generic", [72, 73], ("fun", [(1, ("inst", ("id", 50), (("id", 72), ("id", 73))))], ("inst", ("id", 50), (("id", 73), ("id", 72))),
        ("match", V(1, ("inst", ("id", 50), (("id", 72), ("id", 73)))), [(("pdata", ("inst", ("id", 50), (("id", 72), ("id", 73))), 0, [("pvar", 2, ("id", 72), None), ("pvar", 3, ("id", 73), None)]),
                                                                        ("data", ("inst", ("id", 50), (("id", 73), ("id", 72))), 0, [V(3, ("id", 73)), V(2, ("id", 72))]))]), False)))], [
        (U, ("match", call(("fun", ("inst", ("id", 60), (U, U64)), clos([("inst", ("id", 50), (U, U64))], ("inst", ("id", 50), (U64, U))), None), ("data", ("inst", ("id", 50), (U, U64)), 0, [leaf("a"), leaf("b", ret=U64)])),
             [(("pdata", ("inst", ("id", 50), (U64, U)), 0, [("pvar", 8, U64, None), ("pvar", 9, U, None)]), leaf("swapped", V(8, U64), V(9)))]))]
    yield "gen:closure", [(60, ("generic", [71], ("fun", [(1, B_)], clos([], B_), ("letfun", [(2, [], [], B_, V(1, B_))], ("localfun", 2, (), clos([], B_))), False)))], [
        (U, ("seq", [leaf("k", call(call(inst(60, [U64], [U64], clos([], U64)), leaf("a", ret=U64))), ret="unit")], call(call(inst(60, [U], [U], clos([], U)), leaf("b")))))]
    yield "gen:list", [(50, ("generic", [70], ("data", "Boxed", [[], [A, ("inst", ("id", 50), (A,))]]))),
                       (60, ("generic", [71], ("fun", [(1, opt(B_)), (4, clos([B_], U))], U, ("match", V(1, opt(B_)), [(("pdata", opt(B_), 0, []), num(0)), (("pdata", opt(B_), 1, [("pvar", 2, B_, None), ("pvar", 3, opt(B_), None)]),
                           add(call(V(4, clos([B_], U)), V(2, B_)), call(inst(60, [B_], [opt(B_), clos([B_], U)], U), V(3, opt(B_)), V(4, clos([B_], U)))))]), False))), (61, ("fun", [(9, U64)], U, leaf("size", V(9, U64)), False))], [
        (U, call(inst(60, [U64], [opt(U64), clos([U64], U)], U), ("data", opt(U64), 1, [leaf("a", ret=U64), ("if", leaf("more", ret=U1), ("data", opt(U64), 1, [leaf("b", ret=U64), ("data", opt(U64), 0, [])]), ("data", opt(U64), 0, []))]), fun(61, [U64], U)))]
    # aliases and tables that lead back to themselves through data and functions
    o2 = opt(("id", 52))
    for n, top in (("data", ("id", 52)), ("alias", ("id", 51)), ("inst", o2)):
        yield "gen:alias-circle:%s" % n, [odef(), (51, ("alias", o2)), (52, ("data", "Boxed", [[("id", 51), U]])), (62, ("fun", [(9, top)], U, leaf("seen", V(9, ("ptr", U)) if False else num(1)), False)),
            (60, ("fun", [(1, ("id", 51))], U, ("match", V(1, ("id", 51)), [(("pdata", o2, 1, [("pdata", ("id", 52), 0, [("pvar", 3, ("id", 51), None), ("pvar", 4, U, None)])]), add(V(4), call(fun(60, [("id", 51)], U), V(3, ("id", 51))))), (("pdata", o2, 0, []), num(0))]), False))], [
            (U, ("seq", [leaf("first", ("unary", ("PtrToI",), ("nullary", ("Null", top))), ret="unit")], call(fun(60, [("id", 51)], U), ("data", o2, 1, [("data", ("id", 52), 0, [("data", o2, 1, [("data", ("id", 52), 0, [("data", o2, 0, []), leaf("b")])]), leaf("a")])]))))]
    for first in (80, 81):
        yield "gen:table-circle:%d" % first, [(51, ("table", [(80, ("inst", ("id", 61), (U,))), (81, ("inst", ("id", 60), (("id", 51),))), (82, ("id", 53))])), (53, ("alias", U)), (61, ("generic", [72], ("fun", [(1, ("id", 72))], ("id", 72), leaf("m1", V(1, ("id", 72)), ret=U), False))),
            (60, ("generic", [71], ("fun", [(3, ("get", B_, 82))], ("get", B_, 82), call(("fun", ("get", B_, 80), clos([U], U), None), add(V(3, ("get", B_, 82)), num(1))), False)))], [
            (U, add(call(("fun", ("get", ("id", 51), first), clos([U], U), None), leaf("x")), call(("fun", ("get", ("id", 51), 161 - first), clos([U], U), None), leaf("y"))))]
    # instances that differ in one argument only
    A2, B2 = ("id", 71), ("id", 72)
    two = [(50, ("generic", [70, 73], ("data", "Value", [[("id", 70)], [("id", 73), U]]))), (60, ("generic", [71, 72], ("fun", [(1, A2), (2, B2)], A2, ("seq", [leaf("see", V(2, B2), ret="unit")], V(1, A2)), False)))]
    i2 = lambda a, b: ("inst", ("id", 50), (a, b))
    show = lambda a, b, n: ("match", pick(None, [("data", i2(a, b), 0, [leaf("a%d" % n, ret=a)]), ("data", i2(a, b), 1, [leaf("b%d" % n, ret=b), leaf("c%d" % n)])]),
                            [(("pdata", i2(a, b), 0, [("pvar", 10 + n, a, None)]), leaf("first", V(10 + n, a))), (("pdata", i2(a, b), 1, [("pvar", 20 + n, b, None), ("pwild", U)]), leaf("second", V(20 + n, b)))])
    pairs = [(U, U), (U, U64), (U64, U), (U64, U64), (U, ("ptr", U)), (U, U)]
    yield "gen:one-differs", two, [(U, ("seq", [leaf("r", show(a, b, n), ret="unit") for n, (a, b) in enumerate(pairs)], num(1)))]
    yield "gen:one-differs-fun", two, [(U, ("seq", [leaf("r", call(("fun", ("inst", ("id", 60), (a, b)), clos([a, b], a), None), leaf("a%d" % n, ret=a), leaf("b%d" % n, ret=b)), ret="unit") for n, (a, b) in enumerate(pairs)], num(1)))]
    yield "gen:sizeof", [(60, ("generic", [71], ("fun", [], U64, ("nullary", ("SizeOf", B_)), False)))], [(U64, ("binary", ("UMul",), call(inst(60, [U], [], U64)), call(inst(60, [U64], [], U64))))]
    yield "gen:ops", [(60, ("generic", [71], ("fun", [(1, U)], B_, ("unary", ("UExt", B_), V(1)), False)))], [(U64, call(inst(60, [U64], [U], U64), leaf("x")))]


def transparent_cases(thorough):
    V = lambda i, t=U: ("var", i, t)
    tf = lambda ps, body, r=U: ("fun", ps, r, body, True)
    ff = lambda ps, body, r=U: ("fun", ps, r, body, False)
    f1 = fun(60, [U], U)
    f2 = fun(60, [U, U], U)
    m = lambda x, v: ("match", x, [(("pconst", num(1)), leaf("one")), (("pvar", v, U, None), leaf("other", V(v)))])
    args = dict(leaf=lambda n: leaf("x%d" % n), const=lambda n: num(n), match=lambda n: m(leaf("x%d" % n), 30 + n), let=lambda n: ("let", [(30 + n, U, leaf("x%d" % n))], add(V(30 + n), V(30 + n))),
                clos=lambda n: ("letfun", [(40 + n, [], [(50 + n, U)], U, sub(V(50 + n), num(n)))], call(("localfun", 40 + n, (), clos([U], U)), leaf("x%d" % n))),
                ret=lambda n: ("if", leaf("q%d" % n, ret=U1), leaf("x%d" % n), ("return", leaf("early%d" % n))), alloc=lambda n: ("let", [(30 + n, ("ptr", U), alloc(leaf("x%d" % n)))], load(V(30 + n, ("ptr", U)))))
    bodies = dict(once=V(1), twice=sub(V(1), V(1)), never=num(3), cond=("if", leaf("c", ret=U1), V(1), num(0)), both=("if", leaf("c", ret=U1), add(V(1), num(1)), V(1)), let=("let", [(2, U, V(1))], sub(V(2), V(2))),
                  match=("match", V(1), [(("pconst", num(1)), leaf("a")), (("pvar", 2, U, None), leaf("b", V(2)))]), uses=("match", leaf("k"), [(("pconst", num(1)), V(1)), (("pwild", U), add(V(1), num(1)))]),
                  clos=("letfun", [(2, [], [(3, U)], U, sub(V(3), num(7)))], call(("localfun", 2, (), clos([U], U)), V(1))), alloc=("let", [(2, ("ptr", U), alloc(V(1)))], ("seq", [store(leaf("n"), V(2, ("ptr", U)))], load(V(2, ("ptr", U))))),
                  loop=("seq", [("while", ("binary", ("ULt",), V(1), num(3)), ("seq", [leaf("it")], ("const", "unit")))], num(1)))
    for bn, b in bodies.items():
        for an, a in args.items():
            if an == "ret" and bn in ("loop",):
                continue
            if not thorough and an in ("const", "alloc") and bn not in ("twice", "alloc"):
                continue
            yield "inline:%s:%s" % (bn, an), [(60, tf([(1, U)], b)), (61, ff([], add(call(f1, a(1)), leaf("after"))))], [(U, call(fun(61, [], U)))]
    # two arguments, nesting, chains
    two = tf([(1, U), (2, U)], sub(V(2), V(1)))
    for an, a in args.items():
        yield "inline:swap:%s" % an, [(60, two), (61, ff([], call(f2, a(1), a(2))))], [(U, call(fun(61, [], U)))]
        yield "inline:inner:%s" % an, [(60, tf([(1, U)], bodies["match"])), (61, ff([], call(f1, call(f1, a(1)))))], [(U, call(fun(61, [], U)))]
        yield "inline:inner2:%s" % an, [(60, tf([(1, U), (2, U)], ("if", leaf("c", ret=U1), V(1), add(V(1), V(2))))), (61, ff([], call(f2, call(f2, a(1), a(2)), a(3))))], [(U, call(fun(61, [], U)))]
        yield "inline:chain:%s" % an, [(60, tf([(1, U)], call(fun(62, [U], U), add(V(1), num(1))))), (62, tf([(3, U)], ("let", [(4, U, V(3))], add(V(4), V(3))))), (61, ff([], call(f1, a(1))))], [(U, call(fun(61, [], U)))]
        yield "inline:match2:%s" % an, [(60, tf([(1, U)], ("match", V(1), [(("pconst", num(1)), V(1)), (("pvar", 2, U, None), add(V(2), V(1)))]))), (61, ff([], call(f1, a(1))))], [(U, call(fun(61, [], U)))]
    yield "inline:and", [(60, ("fun", [(1, U1), (2, U1)], U1, ("and", V(1, U1), V(2, U1)), True))], [(U, ("if", call(fun(60, [U1, U1], U1), leaf("a", ret=U1), leaf("b", ret=U1)), leaf("yes"), leaf("no")))]
    yield "inline:or-not", [(60, ("fun", [(1, U1), (2, U1)], U1, ("or", V(1, U1), ("unary", ("Not",), V(2, U1))), True))], [(U, ("if", call(fun(60, [U1, U1], U1), leaf("a", ret=U1), leaf("b", ret=U1)), leaf("yes"), leaf("no")))]
    yield "inline:value", [(60, tf([(1, U)], add(V(1), V(1)))), (61, ff([(2, clos([U], U))], call(V(2, clos([U], U)), leaf("x"))))], [(U, call(fun(61, [clos([U], U)], U), f1))]
    yield "inline:value-match", [(60, tf([(1, U)], bodies["match"])), (61, ff([(7, clos([U], U))], add(call(V(7, clos([U], U)), leaf("x")), call(f1, leaf("y")))))], [(U, call(fun(61, [clos([U], U)], U), f1))]
    for bn, b in dict(num=num(7), leaf=leaf("k"), fun=fun(62, [U], U), match=("match", leaf("k"), [(("pconst", num(1)), num(3)), (("pvar", 2, U, None), sub(V(2), num(1)))])).items():
        t = clos([U], U) if bn == "fun" else U
        use = (lambda x: call(x, leaf("x"))) if bn == "fun" else (lambda x: x)
        zero, nul = ("fun", [], t, b, True), fun(60, [], t)
        ext = [(62, ff([(9, U)], add(V(9), V(9))))]
        yield "inline:nullary:%s" % bn, [(60, zero)] + ext, [(U, use(call(nul))), (U, add(use(call(nul)), num(1)))]
        yield "inline:nullary-value:%s" % bn, [(60, zero), (61, ff([(7, clos([], t))], use(call(V(7, clos([], t))))))] + ext, [(U, call(fun(61, [clos([], t)], U), nul)), (U, use(call(nul)))]
        yield "inline:nullary-bound:%s" % bn, [(60, zero)] + ext, [(U, ("let", [(8, clos([], t), nul)], sub(use(call(V(8, clos([], t)))), use(call(nul)))))]
    yield "inline:in-localfun", [(60, tf([(1, U)], ("let", [(2, U, V(1))], sub(V(2), V(1)))))], [(U, ("let", [(8, U, leaf("c"))], ("letfun", [(9, [], [(10, U)], U, call(f1, add(V(10), V(8))))], call(("localfun", 9, (), clos([U], U)), leaf("x")))))]
    yield "inline:captures-param", [(60, tf([(1, U)], ("letfun", [(2, [], [(3, U)], U, sub(V(3), V(1)))], call(("localfun", 2, (), clos([U], U)), leaf("x")))))], [(U, add(call(f1, leaf("a")), call(f1, leaf("b"))))]
    yield "inline:returns-closure", [(60, ("fun", [(1, U)], clos([U], U), ("letfun", [(2, [], [(3, U)], U, sub(V(3), V(1)))], ("localfun", 2, (), clos([U], U))), True))], [
        (U, ("let", [(20, clos([U], U), call(fun(60, [U], clos([U], U)), leaf("a"))), (21, clos([U], U), call(fun(60, [U], clos([U], U)), leaf("b")))], sub(call(V(20, clos([U], U)), leaf("x")), call(V(21, clos([U], U)), leaf("y")))))]
    A = ("id", 71)
    yield "inline:generic", [(60, ("generic", [71], ("fun", [(1, A), (2, U)], U, ("seq", [leaf("see", V(1, A), ret="unit")], add(V(2), V(2))), True)))], [
        (U, add(call(("fun", ("inst", ("id", 60), (U64,)), clos([U64, U], U), None), leaf("a", ret=U64), leaf("x")), call(("fun", ("inst", ("id", 60), (U,)), clos([U, U], U), None), leaf("b"), m(leaf("y"), 33))))]
    # a body that defines a variable and uses an argument within its scope, given calls of itself
    scoped = dict(let=("let", [(4, U, V(1))], sub(V(2), V(4))), clause=("match", V(1), [(("pconst", num(1)), V(2)), (("pvar", 4, U, None), sub(V(2), V(4)))]),
                  fun=("letfun", [(4, [], [(5, U)], U, add(V(5), V(2)))], sub(call(("localfun", 4, (), clos([U], U)), V(1)), call(("localfun", 4, (), clos([U], U)), num(2)))),
                  cell=("let", [(4, ("ptr", U), alloc(V(1)))], ("seq", [store(add(load(V(4, ("ptr", U))), V(2)), V(4, ("ptr", U)))], load(V(4, ("ptr", U))))),
                  two=("let", [(4, U, V(1)), (5, U, V(2))], sub(V(4), sub(V(2), V(5)))), seq=("seq", [("let", [(4, U, V(1))], leaf("saw", V(4), V(2), ret="unit"))], V(2)))
    for n, b in scoped.items():
        for s, x in dict(right=call(f2, leaf("a"), call(f2, leaf("b"), leaf("c"))), left=call(f2, call(f2, leaf("a"), leaf("b")), leaf("c")), both=call(f2, call(f2, leaf("a"), leaf("b")), call(f2, leaf("c"), leaf("d"))),
                         let=call(f2, leaf("a"), ("let", [(30, U, leaf("b"))], add(V(30), V(30))))).items():
            yield "inline:scoped-%s:%s" % (n, s), [(60, tf([(1, U), (2, U)], b)), (61, ff([], x))], [(U, call(fun(61, [], U)))]
            yield "inline:scoped-%s:%s:top" % (n, s), [(60, tf([(1, U), (2, U)], b)), (61, ff([(7, clos([U, U], U))], call(V(7, clos([U, U], U)), leaf("x"), leaf("y"))))], [(U, call(fun(61, [clos([U, U], U)], U), f2)), (U, x)]
    yield "inline:data", [(50, ("data", "Boxed", [[], [U]])), (60, tf([(1, ("id", 50)), (2, U)], ("match", V(1, ("id", 50)), [(("pdata", ("id", 50), 1, [("pvar", 3, U, None)]), V(3)), (("pdata", ("id", 50), 0, []), V(2))])))], [
        (U, call(fun(60, [("id", 50), U], U), pick(None, [("data", ("id", 50), 0, []), ("data", ("id", 50), 1, [leaf("v")])]), m(leaf("d"), 33)))]
    # a transparent function whose body leads to a caller of itself
    inst = lambda i, args, ps, r: ("fun", ("inst", ("id", i), tuple(args)), clos(ps, r), None)
    ends = dict(generic=call(inst(63, [U], [U], U), V(1)), fun=("letfun", [(2, [], [(3, U)], U, sub(V(3), V(1)))], call(("localfun", 2, (), clos([U], U)), leaf("x"))), match=m(V(1), 4),
                alias=("let", [(4, ("id", 52), ("data", ("id", 51), 0, [V(1)]))], ("match", V(4, ("id", 52)), [(("pdata", ("id", 51), 0, [("pvar", 5, U, None)]), V(5))])), inline=call(fun(64, [U], U), V(1)))
    for n, b in ends.items():
        for start in (60, 61):
            yield "inline:around:%s:%d" % (n, start), [(60, tf([(1, U)], ("if", leaf("go", V(1), ret=U1), call(fun(61, [U], U), V(1)), b))), (61, ff([(7, U)], call(f1, add(V(7), num(1))))), (63, ("generic", [71], ("fun", [(9, A)], A, V(9, A), False))),
                (64, tf([(9, U)], add(V(9), V(9)))), (51, ("data", "Boxed", [[U]])), (52, ("alias", ("id", 51)))], [(U, call(fun(start, [U], U), leaf("s")))]
    yield "inline:recursive-caller", [(60, tf([(1, U)], ("let", [(2, U, V(1))], add(V(2), num(1))))), (61, ff([(5, U)], ("if", leaf("go", V(5), ret=U1), call(fun(61, [U], U), call(f1, V(5))), V(5))))], [(U, call(fun(61, [U], U), leaf("x")))]


def heap_cases(thorough):
    V = lambda i, t=U: ("var", i, t)
    PT = ("ptr", U)
    P = lambda i: V(i, PT)
    ff = lambda body, ps=(), r=U: ("fun", list(ps), r, body, False)
    inc = lambda i: store(add(load(P(i)), num(1)), P(i))
    cell = lambda i, x, b: ("let", [(i, PT, alloc(x))], b)
    T0 = clos([], U)
    progs = {
        "load": cell(1, leaf("x"), load(P(1))),
        "store": cell(1, leaf("x"), ("seq", [store(leaf("y"), P(1))], load(P(1)))),
        "loop": cell(1, leaf("x"), ("seq", [("while", leaf("go", ret=U1), inc(1))], load(P(1)))),
        "two": cell(1, leaf("x"), cell(2, leaf("y"), ("seq", [store(load(P(2)), P(1)), inc(2)], sub(load(P(1)), load(P(2)))))),
        "return": None,
        "passed": cell(1, leaf("x"), ("seq", [leaf("ext", P(1), ret="unit")], load(P(1)))),
        "aliased": cell(1, leaf("x"), ("let", [(2, PT, P(1))], ("seq", [inc(2)], load(P(1))))),
        "captured": cell(1, leaf("x"), ("letfun", [(3, [], [], U, load(P(1)))], ("seq", [inc(1)], call(("localfun", 3, (), T0))))),
        "inside": ("let", [(1, ("ptr", PT), alloc(alloc(leaf("x"))))], ("seq", [store(alloc(leaf("y")), V(1, ("ptr", PT)))], load(load(V(1, ("ptr", PT)))))),
        "pointer-kept": cell(1, leaf("x"), ("let", [(2, ("ptr", PT), alloc(P(1)))], ("seq", [inc(1)], load(load(V(2, ("ptr", PT))))))),
        "stored-elsewhere": cell(1, leaf("x"), ("let", [(2, ("ptr", PT), alloc(("nullary", ("Null", U))))], ("seq", [store(P(1), V(2, ("ptr", PT))), inc(1)], load(load(V(2, ("ptr", PT))))))),
        "in-branch": cell(1, leaf("x"), ("seq", [("if", leaf("c", ret=U1), inc(1), ("const", "unit"))], load(P(1)))),
        "chosen": cell(1, leaf("x"), cell(2, leaf("y"), load(("if", leaf("c", ret=U1), P(1), P(2))))),
        "matched": cell(1, leaf("x"), ("match", P(1), [(("pderef", ("pconst", num(3))), num(1)), (("pderef", ("pvar", 4, U, None)), V(4))])),
        "compared": cell(1, leaf("x"), ("if", ("binary", ("PtrEq",), P(1), ("nullary", ("Null", U))), num(1), load(P(1)))),
        "list-in-loop": ("let", [(9, ("ptr", PT), alloc(("nullary", ("Null", U))))], ("seq", [("while", leaf("go", ret=U1), cell(1, leaf("x"), ("seq", [leaf("use", load(P(1)), ret="unit"), store(P(1), V(9, ("ptr", PT)))], ("const", "unit"))))],
                          ("match", load(V(9, ("ptr", PT))), [(("pnull", U), num(0)), (("pnonnull", ("pvar", 4, U, None)), V(4))]))),
        "two-kept-in-loop": ("let", [(8, ("ptr", PT), alloc(("nullary", ("Null", U)))), (9, ("ptr", PT), alloc(("nullary", ("Null", U))))], ("seq", [("while", leaf("go", ret=U1), cell(1, leaf("x"), ("seq", [
            store(load(V(9, ("ptr", PT))), V(8, ("ptr", PT))), store(P(1), V(9, ("ptr", PT)))], ("const", "unit"))))],
            ("match", load(V(8, ("ptr", PT))), [(("pnull", U), num(0)), (("pnonnull", ("pvar", 4, U, None)), V(4))]))),
        "loop-local": cell(2, num(0), ("seq", [("while", leaf("go", ret=U1), cell(1, leaf("x"), ("seq", [inc(1)], store(add(load(P(1)), load(P(2))), P(2)))))], load(P(2)))),
        "nested-let": ("let", [(1, PT, ("let", [(2, PT, alloc(leaf("x")))], P(2)))], ("seq", [inc(1)], load(P(1)))),
        "store-self": ("let", [(1, ("ptr", U64), alloc(leaf("x", ret=U64)))], ("seq", [store(("unary", ("PtrToI",), V(1, ("ptr", U64))), V(1, ("ptr", U64)))], num(1))) if False else cell(1, leaf("x"), ("seq", [store(load(P(1)), P(1))], load(P(1)))),
        "arg-of-call": None,
        "later-var": ("let", [(1, PT, alloc(leaf("x"))), (2, U, load(P(1))), (3, PT, P(1))], ("seq", [inc(3)], sub(load(P(1)), V(2)))),
        "load-of-load": ("let", [(1, PT, alloc(leaf("x"))), (2, ("ptr", PT), alloc(P(1)))], ("seq", [store(leaf("z"), load(V(2, ("ptr", PT))))], load(P(1)))),
    }
    PP = ("ptr", PT)
    W = lambda i: V(i, PP)
    yield "cell:kept-in-param", [(60, ff(cell(1, leaf("x"), ("seq", [store(P(1), W(5))], load(P(1)))), [(5, PP)]))], [
        (U, ("let", [(20, PP, alloc(("nullary", ("Null", U)))), (21, U, call(fun(60, [PP], U), W(20)))], sub(V(21), load(load(W(20))))))]
    yield "cell:kept-in-returned", [(60, ff(cell(1, leaf("x"), ("let", [(2, PP, alloc(("nullary", ("Null", U))))], ("seq", [store(P(1), W(2))], W(2)))), r=PP))], [(U, load(load(call(fun(60, [], PP)))))]
    yield "cell:kept-by-choice", [(60, ff(cell(1, leaf("x"), ("seq", [store(("if", leaf("c", ret=U1), P(1), ("nullary", ("Null", U))), W(5))], num(1))), [(5, PP)]))], [
        (U, ("let", [(20, PP, alloc(alloc(num(9)))), (21, U, call(fun(60, [PP], U), W(20)))], load(load(W(20)))))]
    yield "cell:kept-in-loaded", [(60, ff(cell(1, leaf("x"), ("seq", [store(P(1), load(("var", 5, ("ptr", PP))))], num(1))), [(5, ("ptr", PP))]))], [
        (U, ("let", [(20, PP, alloc(("nullary", ("Null", U)))), (21, U, call(fun(60, [("ptr", PP)], U), alloc(W(20))))], load(load(W(20)))))]
    yield "cell:by-address", [(60, ff(cell(1, leaf("x"), ("unary", ("PtrToI",), P(1))), r=U64))], [(U, load(("unary", ("IToPtr", U), call(fun(60, [], U64)))))]
    yield "cell:by-offset", [(60, ff(cell(1, leaf("x"), ("if", ("binary", ("PtrEq",), P(1), P(5)), P(5), P(1))), [(5, PT)], PT))], [(U, load(call(fun(60, [PT], PT), alloc(leaf("z")))))]
    yield "cell:kept-by-let", [(60, ff(cell(1, leaf("x"), ("let", [(2, PT, ("seq", [inc(1)], P(1)))], P(2))), r=PT))], [(U, load(call(fun(60, [], PT))))]
    yield "cell:kept-by-cont", [(60, ff(cell(1, leaf("x"), ("match", leaf("k"), [(("pconst", num(1)), P(1)), (("pwild", U), ("nullary", ("Null", U)))])), r=PT))], [
        (U, ("match", call(fun(60, [], PT)), [(("pnull", U), num(7)), (("pnonnull", ("pvar", 30, U, None)), V(30))]))]
    yield "cell:kept-by-closure", [(60, ff(cell(1, leaf("x"), ("letfun", [(3, [], [], U, load(P(1)))], ("seq", [inc(1)], ("localfun", 3, (), T0)))), r=T0))], [(U, call(call(fun(60, [], T0))))]
    yield "cell:assigned", [(60, ff(cell(1, leaf("x"), cell(2, leaf("y"), ("let", [(3, PP, alloc(P(1)))], ("seq", [store(P(2), W(3))], load(W(3)))))), r=PT))], [(U, load(call(fun(60, [], PT))))]
    for n, b in progs.items():
        if b is not None:
            yield "cell:%s" % n, [(60, ff(b))], [(U, add(call(fun(60, [], U)), leaf("after")))]
    yield "cell:returned", [(60, ff(cell(1, leaf("x"), ("seq", [inc(1)], P(1))), r=PT))], [(U, ("let", [(20, PT, call(fun(60, [], PT))), (21, PT, call(fun(60, [], PT)))], ("seq", [inc(20)], sub(load(P(20)), load(P(21))))))]
    yield "cell:early-return", [(60, ff(cell(1, leaf("x"), ("seq", [("if", leaf("c", ret=U1), ("return", P(1)), ("const", "unit"))], cell(2, leaf("y"), P(2)))), r=PT))], [(U, load(call(fun(60, [], PT))))]
    yield "cell:arg", [(60, ff(("seq", [inc(5)], load(P(5))), [(5, PT)]))], [(U, cell(1, leaf("x"), ("seq", [call(fun(60, [PT], U), P(1))], load(P(1)))))]
    yield "cell:kept-by-callee", [(50, ("data", "Value", [[PT]])), (60, ("fun", [(5, PT)], ("id", 50), ("data", ("id", 50), 0, [P(5)]), False)), (61, ff(cell(1, leaf("x"), call(fun(60, [PT], ("id", 50)), P(1))), r=("id", 50)))], [
        (U, ("match", call(fun(61, [], ("id", 50))), [(("pdata", ("id", 50), 0, [("pderef", ("pvar", 30, U, None))]), V(30))]))]
    yield "cell:in-data", [(50, ("data", "Boxed", [[PT, U]])), (61, ff(cell(1, leaf("x"), ("data", ("id", 50), 0, [P(1), load(P(1))])), r=("id", 50)))], [
        (U, ("match", call(fun(61, [], ("id", 50))), [(("pdata", ("id", 50), 0, [("pderef", ("pvar", 30, U, None)), ("pvar", 31, U, None)]), sub(V(30), V(31)))]))]
    yield "cell:boxed-local", [(50, ("data", "Boxed", [[U, U]])), (61, ff(("let", [(1, ("id", 50), ("data", ("id", 50), 0, [leaf("a"), leaf("b")]))], ("match", V(1, ("id", 50)), [(("pdata", ("id", 50), 0, [("pvar", 2, U, None), ("pvar", 3, U, None)]), sub(V(2), V(3)))]))))], [
        (U, call(fun(61, [], U)))]
    yield "cell:boxed-returned", [(50, ("data", "Boxed", [[U, U]])), (61, ff(("let", [(1, ("id", 50), ("data", ("id", 50), 0, [leaf("a"), leaf("b")]))], ("match", V(1, ("id", 50)), [(("pdata", ("id", 50), 0, [("pconst", num(3)), ("pwild", U)]), ("data", ("id", 50), 0, [num(1), num(2)])), (("pwild", ("id", 50)), V(1, ("id", 50)))])), r=("id", 50)))], [
        (U, ("match", call(fun(61, [], ("id", 50))), [(("pdata", ("id", 50), 0, [("pvar", 2, U, None), ("pvar", 3, U, None)]), sub(V(2), V(3)))]))]
    yield "cell:recursive", [(61, ff(cell(1, V(5), ("seq", [("if", leaf("go", V(5), ret=U1), store(call(fun(61, [U], U), add(V(5), num(1))), P(1)), ("const", "unit"))], load(P(1)))), [(5, U)]))], [(U, call(fun(61, [U], U), leaf("x")))]
    yield "cell:closure-escapes", [(61, ff(cell(1, V(5), ("letfun", [(3, [], [], U, ("seq", [inc(1)], load(P(1))))], ("localfun", 3, (), T0))), [(5, U)], T0))], [
        (U, ("let", [(20, T0, call(fun(61, [U], T0), leaf("x"))), (21, T0, call(fun(61, [U], T0), leaf("y")))], ("seq", [call(V(20, T0))], sub(call(V(20, T0)), call(V(21, T0))))))]
    yield "cell:offset-returned", [(60, ff(cell(1, leaf("x"), ("binary", ("Offset",), leaf("off", ret="s64"), P(1))), r=PT))], [(U, load(call(fun(60, [], PT))))]
    yield "cell:array-like", [(61, ff(("let", [(1, PT, alloc(leaf("x")))], load(("binary", ("Offset",), num(0, "s64") if False else leaf("off", ret="s64"), P(1)))), ))], [(U, num(1))]


def generation_cases(thorough):
    V = lambda i, t=U: ("var", i, t)
    m = lambda x, v: ("match", x, [(("pconst", num(1)), leaf("one")), (("pvar", v, U, None), leaf("other", V(v)))])
    O = ("id", 50)
    odef = (50, ("data", "Boxed", [[], [U]]))
    mk = lambda n: pick(None, [("data", O, 0, []), ("data", O, 1, [leaf("v%d" % n)])])
    get = (60, ("fun", [(1, O)], U, ("match", V(1, O), [(("pdata", O, 1, [("pvar", 2, U, None)]), V(2)), (("pwild", O), num(0))]), False))
    yield "again:function", [odef, get], [(U, call(fun(60, [O], U), mk(1))), (U, add(call(fun(60, [O], U), mk(2)), num(1)))]
    yield "again:data", [odef, get], [(U, ("match", mk(1), [(("pdata", O, 0, []), num(4)), (("pdata", O, 1, [("pvar", 9, U, None)]), V(9))])), (U, call(fun(60, [O], U), mk(2))), (U, ("match", mk(3), [(("pdata", O, 1, [("pvar", 10, U, None)]), V(10)), (("pwild", O), num(1))]))]
    yield "again:new-data", [odef, get, (51, ("data", "Value", [[O, U]]))], [(U, call(fun(60, [O], U), mk(1))), (U, ("match", ("data", ("id", 51), 0, [mk(2), leaf("k")]), [(("pdata", ("id", 51), 0, [("pdata", O, 1, [("pvar", 9, U, None)]), ("pvar", 10, U, None)]), sub(V(9), V(10))), (("pwild", ("id", 51)), num(3))]))]
    yield "again:containing", [odef, (51, ("data", "Boxed", [[O], [U]]))], [(U, ("match", ("data", ("id", 51), 0, [mk(1)]), [(("pdata", ("id", 51), 0, [("pdata", O, 1, [("pvar", 9, U, None)])]), V(9)), (("pwild", ("id", 51)), num(3))])), (U, ("match", mk(2), [(("pdata", O, 1, [("pvar", 10, U, None)]), V(10)), (("pwild", O), num(1))]))]
    inst = lambda i, args, ps, r: ("fun", ("inst", ("id", i), tuple(args)), clos(ps, r), None)
    A = ("id", 71)
    idf = (60, ("generic", [71], ("fun", [(1, A)], A, V(1, A), False)))
    yield "again:instance", [idf], [(U, call(inst(60, [U], [U], U), leaf("x"))), (U, call(inst(60, [U], [U], U), leaf("y"))), (U64, call(inst(60, [U64], [U64], U64), leaf("z", ret=U64)))]
    gopt = (50, ("generic", [70], ("data", "Value", [[], [("id", 70)]])))
    go = lambda t: ("inst", O, (t,))
    gm = lambda t, n, v: ("match", pick(None, [("data", go(t), 0, []), ("data", go(t), 1, [leaf("v%d" % n, ret=t)])]), [(("pdata", go(t), 1, [("pvar", v, t, None)]), leaf("use", V(v, t))), (("pdata", go(t), 0, []), num(0))])
    yield "again:data-instance", [gopt], [(U, gm(U, 1, 9)), (U, gm(U64, 2, 10)), (U, gm(U, 3, 11))]
    # transparent functions across top-level statements
    sw = (60, ("fun", [(1, U)], U, m(V(1), 2), True))
    keep = (61, ("fun", [(7, clos([U], U))], U, call(V(7, clos([U], U)), leaf("x")), False))
    f1 = fun(60, [U], U)
    yield "again:inline", [sw], [(U, call(f1, leaf("a"))), (U, call(f1, leaf("b")))]
    yield "again:inline-value", [sw, keep], [(U, call(fun(61, [clos([U], U)], U), f1)), (U, call(f1, leaf("b")))]
    yield "again:inline-nested", [sw, keep], [(U, call(fun(61, [clos([U], U)], U), f1)), (U, call(f1, call(f1, leaf("b"))))]
    yield "again:inline-twice", [sw, keep], [(U, call(fun(61, [clos([U], U)], U), f1)), (U, add(call(f1, leaf("b")), call(f1, leaf("c"))))]
    yield "again:inline-data", [odef, (60, ("fun", [(1, O)], U, ("match", V(1, O), [(("pdata", O, 1, [("pvar", 2, U, None)]), V(2)), (("pwild", O), num(0))]), True)), (61, ("fun", [(7, clos([O], U))], U, call(V(7, clos([O], U)), mk(9)), False))], [
        (U, call(fun(61, [clos([O], U)], U), fun(60, [O], U))), (U, call(fun(60, [O], U), mk(1)))]
    yield "again:inline-data2", [odef, (60, ("fun", [(1, U)], O, ("if", leaf("c", ret=U1), ("data", O, 1, [V(1)]), ("data", O, 0, [])), True)), get], [
        (U, call(fun(60 + 1, [clos([U], O)], U), fun(60, [U], O))), (U, call(fun(62, [O], U), call(fun(60, [U], O), leaf("y"))))] if False else [
        (U, call(fun(62, [O], U), call(fun(60, [U], O), leaf("x")))), (U, call(fun(62, [O], U), call(fun(60, [U], O), leaf("y"))))]
    clo = (60, ("fun", [(1, U)], clos([U], U), ("letfun", [(2, [], [(3, U)], U, sub(V(3), V(1)))], ("localfun", 2, (), clos([U], U))), False))
    yield "again:closure", [clo], [(U, call(call(fun(60, [U], clos([U], U)), leaf("a")), leaf("b"))), (U, call(call(fun(60, [U], clos([U], U)), leaf("c")), leaf("d")))]
    yield "again:alias", [(51, ("alias", go(U))), gopt, (60, ("fun", [(1, ("id", 51))], U, ("match", V(1, ("id", 51)), [(("pdata", go(U), 1, [("pvar", 2, U, None)]), V(2)), (("pwild", ("id", 51)), num(0))]), False))], [
        (U, call(fun(60, [("id", 51)], U), ("data", go(U), 1, [leaf("x")]))), (U, call(fun(60, [go(U)], U), ("data", ("id", 51), 0, [])))]
    yield "again:unused-between", [odef, get, idf], [(U, leaf("nothing")), (U, call(fun(60 + 2, [], U))) if False else (U, leaf("still")), (U, num(3))]


def fix_again(cases):
    """the accessor of two cases lives at another identifier"""
    for n, d, s in cases:
        if n == "again:inline-data2":
            d = [x if x[1][0] != "fun" or x[1][4] else (62, x[1]) for x in d]
        if n == "again:unused-between":
            d = [x for x in d if x[0] != 60] + [(60, d[1][1])]
        yield n, d, s


GROUPS = dict(data=data_cases, pattern=pattern_cases, closure=closure_cases, generic=generic_cases, inline=transparent_cases, heap=heap_cases, again=lambda t: fix_again(generation_cases(t)))


def cases(thorough, groups=None):
    for g, f in GROUPS.items():
        if groups is None or g in groups:
            for n, d, s in f(thorough):
                yield n, d, s
