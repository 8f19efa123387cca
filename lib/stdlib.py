"""The library on machine types: its sources are read and its functions evaluated on symbolic operands."""
import os
import re
import facts
import builtins_
from forms import Bad

SIGNED, UNSIGNED, FLOATS = ["I8", "I16", "I32", "I64"], ["U8", "U16", "U32", "U64"], ["F32", "F64"]
INTS = SIGNED + UNSIGNED
WIDTH = {t: int(t[1:]) for t in INTS + FLOATS}
BOOLS = {"#t": ("bool", True), "#f": ("bool", False)}


def limits(t):
    n = WIDTH[t]
    return (-(1 << n - 1), (1 << n - 1) - 1) if t[0] == "I" else (0, (1 << n) - 1)


# ---------------------------------------------------------------- values
# numbers: ("n", type or None, lowest, highest, bits or None); bits from the lowest: 0, 1 or (name, index)
def num(n, ty=None):
    if n < 0:
        return ("n", ty, n, n, None)
    return ("n", ty, n, n, tuple((n >> i) & 1 for i in range(n.bit_length())))


KNOWN = {}


def unknown(name, ty, lo, hi):
    """a number of a range: the bits that all of the range share are known"""
    if lo == hi:
        return num(lo, ty)
    bits = None
    if lo >= 0:
        n, bits = hi.bit_length(), []
        for i in range(n):
            bits.append((lo >> i) & 1 if lo >> i == hi >> i else (name, i))
        while bits and bits[-1] == 0:
            bits.pop()
        bits = tuple(bits)
        KNOWN[bits] = (lo, hi)
    return ("n", ty, lo, hi, bits)


def of_bits(bits, ty, like=()):
    if ty:
        bits = bits[:WIDTH[ty]]
    bits = list(bits)
    while bits and bits[-1] == 0:
        bits.pop()
    bits = tuple(bits)
    if bits in KNOWN:
        return ("n", ty, *KNOWN[bits], bits)
    return ("n", ty, sum(1 << i for i, b in enumerate(bits) if b == 1), sum(1 << i for i, b in enumerate(bits) if b != 0), bits)


def constant(v):
    if v[0] != "n" or v[2] != v[3]:
        raise Bad("a number that is not known")
    return v[2]


def unprefixed(x):
    """the names of the UTF-8 library, as they are there"""
    if isinstance(x, str):
        return x[6:] if x.startswith("utf-8/") and len(x) > 6 else x
    return [unprefixed(y) for y in x] if isinstance(x, list) else x


class Lib:
    def __init__(self, only=("std",)):
        self.files = {}
        self.instances = {}   # (class, type) -> (methods, file)
        self.classes = {}
        self.method_of = {}
        self.fields = {}      # constructor -> field types
        self.global_ = {}
        self.stack = []
        self.used = set()
        self.facts = {}       # answers to comparisons of what is not a number
        self.order = None     # (x, y) -> -1, 0, 1: the order that is supposed
        self.answer = self.asked = None
        self.done = []        # what was written, and the functions of unknown effect that were called
        self.watch = None
        for f in builtins_.sources():
            if not f.startswith(tuple(x + "/" for x in only)) or "/tests/" in f:
                continue
            self.file(f)

    def file(self, f):
        self.files[f] = defs = {}
        text = builtins_.read(open(os.path.join(facts.REPO, f)).read())
        if not f.endswith("internal/utf-8.llrl"):
            text = unprefixed(text)
        for d in text:
            for d in self.expand(d):
                self.define(f, defs, d)

    def expand(self, d):
        if isinstance(d, list) and d and d[0] == "$for1" and len(d) > 2:
            for x in d[2]:
                for body in d[3:]:
                    yield from self.expand(self.subst(body, {d[1]: x}))
        elif isinstance(d, list) and d and d[0] == "$for" and len(d) > 2:
            vs = d[1] if isinstance(d[1], list) else [d[1]]
            for x in d[2]:
                for body in d[3:]:
                    yield from self.expand(self.subst(body, dict(zip(vs, x if isinstance(d[1], list) else [x]))))
        else:
            yield d

    def subst(self, x, m):
        if isinstance(x, str):
            return m.get(x, x)
        if isinstance(x, list):
            x = [self.subst(y, m) for y in x]
            if x and x[0] == "$symbol" and all(isinstance(y, str) for y in x[1:]):
                return "".join(x[1:])
            return x
        return x

    def define(self, f, defs, d):
        if not isinstance(d, list) or len(d) < 2:
            return
        k = d[0]
        if k == "derive" and len(d) > 3:
            return self.define(f, defs, d[2:])
        if k in ("function", "transparent-function"):
            n, v = self.fun(f, d)
            defs[n] = v
            self.global_.setdefault(n, []).append(v)
        elif k == "builtin-op" and len(d) > 3:
            defs[d[1]] = ("op", d[3][1], d[2])
            self.global_.setdefault(d[1], []).append(defs[d[1]])
        elif k == "c-function" and len(d) > 3:
            defs[d[1]] = ("c", d[3][1], d[2])
            self.global_.setdefault(d[1], []).append(defs[d[1]])
        elif k in ("data", "value-data", "c-data", "data:value"):
            for i, v in enumerate(d[2:]):
                if isinstance(v, str):
                    self.fields[(f, v)] = (i, None)
                elif isinstance(v, list) and v and isinstance(v[0], str):
                    self.fields[(f, v[0])] = (i, v[1:])
        elif k in ("class", "sealed-class"):
            head = d[1] if isinstance(d[1], list) else [d[1]]
            ms = {}
            for m in d[2:]:
                if isinstance(m, list) and m and m[0] in ("function", "transparent-function"):
                    n, v = self.fun(f, m)
                    ms[n] = v
                    self.method_of[n] = head[0]
            self.classes[head[0]] = (head[1:], ms, f)
        elif k == "instance":
            i = 2
            while i < len(d) and isinstance(d[i], list) and d[i] and d[i][0] in ("forall", "where"):
                i += 1
            if i < len(d) and isinstance(d[i], list) and all(isinstance(x, str) for x in d[i]):
                ms = dict(self.fun(f, m) for m in d[i + 1:] if isinstance(m, list) and m and m[0] in ("function", "transparent-function"))
                if len(d) > 2 and i == 2:
                    self.instances.setdefault(tuple(d[i]), []).append((ms, f))

    def fun(self, f, d):
        head = d[1]
        body = d[2:]
        sig = None
        if body and isinstance(body[0], list) and body[0][:1] == ["{}"]:
            sig, body = body[0], body[1:]
        if body and isinstance(body[0], list) and body[0][:1] == ["where"]:
            body = body[1:]
        if isinstance(head, list):
            return head[0], ("fun", head[1:], sig, body, f)
        return head, ("fun", None, sig, body, f)

    # -- evaluation
    def lookup(self, f, n):
        d = self.files[f].get(n)
        if d is None and n not in self.method_of:
            ds = self.global_.get(n, [])
            if len(ds) == 1:
                d = ds[0]
        return d

    def con(self, f, n):
        if (f, n) in self.fields:
            return self.fields[(f, n)]
        ks = {k: v for k, v in self.fields.items() if k[1] == n}
        return next(iter(ks.values())) if len(ks) == 1 else None

    def call(self, d, args, expect=None, self_ty=None):
        _, ps, sig, body, f = d
        tys = None
        if sig is not None:
            vs, t, _ = builtins_.signature_of(sig)
            ts, r = builtins_.flat(t) if ps is not None else ([], t)
            tys = [x[1] if x[1] in WIDTH else None for x in ts]
            if r[1] in WIDTH:
                expect = r[1]
        if len(ps or ()) != len(args):
            raise Bad("a call with other arguments")
        if len(self.stack) > 40:
            raise Bad("calls that are nested too deep")
        self.stack.append(1)
        env = {}
        for i, (p, a) in enumerate(zip(ps or (), args)):
            env[p] = self.typed(a, tys[i]) if tys and i < len(tys) and tys[i] else a
        v = self.body(f, env, body, expect)
        self.stack.pop()
        return self.typed(v, expect) if expect and v[0] == "n" else v

    def typed(self, v, ty):
        """a number that is of a type (or becomes of it: converted without a sign)"""
        if v[0] != "n" or v[1] == ty or ty not in WIDTH or ty[0] == "F":
            return v
        if v[1] is not None:
            raise Bad("a number of another type: %s for %s" % (v[1], ty))
        lo, hi = limits(ty)
        if lo <= v[2] and v[3] <= hi:
            return ("n", ty) + v[2:]
        if v[4] is None:
            raise Bad("a number that does not fit")
        return of_bits(v[4], ty)

    def body(self, f, env, b, expect):
        items = self.annotated(b)
        # @f x .. rest: the rest is the last argument
        for i, x in enumerate(items[:1]):
            if isinstance(x, str) and x.startswith("@") and len(x) > 1 and i + 1 < len(items):
                rest = items[i + 1:]
                if x == "@let1" and len(rest) >= 3:
                    env = dict(env)
                    env[rest[0]] = self.ev(f, env, rest[1])
                    return self.body(f, env, rest[2:], expect)
                raise Bad("a form that is not followed: %s" % x)
        if not items:
            raise Bad("an empty body")
        for x in items[:-1]:
            self.ev(f, env, x)
        return self.ev(f, env, items[-1], expect)

    def annotated(self, xs):
        out = []
        for x in xs:
            if isinstance(x, list) and x[:1] == ["{}"] and out:
                out[-1] = ["annotate", out[-1], x[1]]
            else:
                out.append(x)
        return out

    def ev(self, f, env, x, expect=None):
        if isinstance(x, tuple):
            return ("str", x[1])
        if isinstance(x, str):
            if x in env:
                return env[x]
            if x in BOOLS:
                return BOOLS[x]
            if re.fullmatch(r"-?\d+", x):
                return self.typed(num(int(x)), expect) if expect in WIDTH and expect[0] != "F" else num(int(x)) if expect not in FLOATS else ("lit", float(x), expect)
            if re.fullmatch(r"-?\d+\.\d+(e-?\d+)?", x):
                return ("lit", float(x), expect)
            if x.startswith("#\\"):
                return ("char", x[2:])
            d = self.lookup(f, x)
            if d and d[0] == "fun" and d[1] is None:
                return self.call(d, [], expect)
            if x in self.method_of and expect:
                return self.method(x, [], expect, f)
            if x in self.method_of:
                return ("later", x, f)
            c = self.con(f, x)
            if c is not None or x in ("none", "unit"):
                return ("con", x, ())
            raise Bad("a name that is not known: %s" % x)
        if not x:
            raise Bad("an empty form")
        x = self.annotated(x)
        h, a = x[0], x[1:]
        E = lambda y, t=None: self.ev(f, env, y, t)
        if isinstance(h, list):
            raise Bad("a call of what is computed")
        if h in env:
            raise Bad("a call of a parameter")
        if h == "annotate":
            t = a[1] if isinstance(a[1], str) else None
            v = E(a[0], t)
            return self.typed(v, t) if v[0] == "n" else v
        if h == "if" and len(a) == 3:
            return E(a[1] if self.truth(E(a[0])) else a[2], expect)
        if h == "cond":
            for c in a:
                if c[0] == "else":
                    return self.body(f, env, c[1:], expect)
                if c[0] in ("when", "when-match", "when-match1"):
                    raise Bad("a clause that is not followed")
                if self.truth(E(c[0])):
                    return self.body(f, env, c[1:], expect)
            raise Bad("a choice without an end")
        if h == "let1" and len(a) >= 3 and isinstance(a[0], str):
            return self.body(f, dict(env, **{a[0]: E(a[1])}), a[2:], expect)
        if h == "let" and isinstance(a[0], list):
            new = dict(env)
            for bnd in a[0]:
                if not isinstance(bnd[0], str):
                    raise Bad("a local function")
                new[bnd[0]] = self.body(f, env, bnd[1:], None)
            return self.body(f, new, a[1:], expect)
        if h == "match":
            v = E(a[0])
            for c in a[1:]:
                new = self.match(f, v, c[0])
                if new is not None:
                    return self.body(f, dict(env, **new), c[1:], expect)
            raise Bad("a match that nothing matches")
        if h == "begin" and a:
            return self.body(f, env, a, expect)
        if h == "set!" and len(a) == 3 and isinstance(a[1], list) and len(a[1]) == 1:
            self.done.append((E(a[0]), E(a[1][0]), E(a[2])))
            return ("con", "unit", ())
        if h == "assert" and len(a) == 2:
            if not self.truth(E(a[0])):
                return ("stop",)
            return ("con", "unit", ())
        if h in ("and", "&&"):
            return ("bool", all(self.truth(E(y)) for y in a))
        if h in ("or", "||"):
            return ("bool", any(self.truth(E(y)) for y in a))
        if h == "not" and len(a) == 1:
            return ("bool", not self.truth(E(a[0])))
        if h == ":":
            return ("con", ":", tuple(E(y) for y in a))
        if h in ("some", "ok", "err"):
            return ("con", h, tuple(E(y) for y in a))
        if h == "|>" and a:
            v = E(a[0])
            for g in a[1:]:
                g = [g] if isinstance(g, str) else g
                v = self.ev(f, dict(env, **{"$v": v}), list(g) + ["$v"])
            return v
        if h in ("<", "<=", ">", ">=", "=") and len(a) >= 2:
            vs = [E(y) for y in a]
            m = {"<": "lt?", "<=": "le?", ">": "gt?", ">=": "ge?", "=": "eq?"}[h]
            pairs = list(zip(vs, vs[1:])) if h != "=" else [(vs[0], w) for w in vs[1:]]
            return ("bool", all(self.truth(self.apply(m, [p, q], None, f)) for p, q in pairs))
        if h in ("+", "-", "*", "/", "%") and len(a) == 2:
            return self.apply({"+": "add", "-": "sub", "*": "mul", "/": "div", "%": "rem"}[h], [E(y) for y in a], expect, f)
        if h == "-" and len(a) == 1:
            return self.apply("negate", [E(a[0])], expect, f)
        c = self.con(f, h)
        if c is not None and c[1] is not None and len(c[1]) == len(a):
            return ("con", h, tuple(self.typed(E(y, t if t in WIDTH else None), t) if isinstance(t, str) else E(y) for y, t in zip(a, c[1])))
        return self.apply(h, [E(y) for y in a], expect, f)

    def match(self, f, v, p):
        if p == "_":
            return {}
        if isinstance(p, list) and p and p[0] == "let" and len(p) == 2:
            return {p[1]: v}
        if isinstance(p, str):
            if re.fullmatch(r"-?\d+", p):
                if v[0] != "n":
                    raise Bad("a number is expected")
                n = int(p)
                if v[2] == v[3] == n:
                    return {}
                if n < v[2] or n > v[3]:
                    return None
                raise Bad("a number that may be %d" % n)
            if p.startswith("#\\"):
                if v[0] != "char":
                    raise Bad("a character is expected")
                return {} if v[1] == p[2:] else None
            if v[0] == "ord":
                v = self.settle(v)
            if v[0] != "con":
                raise Bad("a constructor is expected")
            return {} if v[1] == p else None
        if v[0] != "con":
            raise Bad("a constructor is expected: %s" % str(v)[:100])
        if v[1] != p[0]:
            return None
        if len(v[2]) != len(p) - 1:
            raise Bad("a pattern of another size")
        out = {}
        for y, q in zip(v[2], p[1:]):
            m = self.match(f, y, q)
            if m is None:
                return None
            out.update(m)
        return out

    def truth(self, v):
        if v[0] == "bool":
            return v[1]
        if v in self.facts:
            return self.facts[v]
        raise Bad("a condition that is not decided: %s" % str(v)[:200])

    def apply(self, h, args, expect, f):
        self.used.add(h)
        if h == "conv" and len(args) == 1:
            v = args[0]
            if v[0] == "later":
                raise Bad("a constant of an unknown type")
            if v[0] != "n":
                return ("op", "conv", tuple(args))
            w = ("n", None) + v[2:]
            return self.typed(w, expect) if expect in WIDTH and expect[0] != "F" else w
        if all(v[0] == "n" for v in args) and h in ARITH:
            return self.arith(h, args)
        d = self.lookup(f, h)
        if d is None and h in self.method_of:
            return self.method(h, args, expect, f)
        if d is None:
            raise Bad("a function that is not known: %s" % h)
        if self.watch and h in self.watch:
            return ("op", h, tuple(args))
        if d[0] == "fun":
            return self.call(d, args, expect)
        if d[0] == "c" and self.answer is not None:
            self.asked = (d[1],) + tuple(args)
            return self.answer
        if d[1] == "no-op" and len(args) == 1 and args[0][0] == "n":
            return args[0]
        return ("op", d[1], tuple(args))

    def method(self, h, args, expect, f):
        if h in ("eq?", "ne?") and len(args) == 2 and all(v[0] == "con" and not v[2] for v in args):
            return ("bool", (args[0] == args[1]) == (h == "eq?"))
        if self.order and len(args) == 2:
            o = self.order(*args)
            if o is not None and h == "compare":
                return ("con", ["ordering:equal", "ordering:greater", "ordering:less"][o], ())
            if o is not None and h in ORDER:
                return ("bool", ORDER[h](o))
        ty = next((a[2] for a in args if a[0] == "p"), None) or (expect if not args else None)
        ins = self.instances.get((self.method_of[h], ty), []) if ty else []
        if len(ins) == 1 and h in ins[0][0]:
            return self.call(ins[0][0][h], args, ty if not args else None)
        return ("op", h, tuple(args))

    def arith(self, h, args):
        ty = next((v[1] for v in args if v[1]), None)
        for v in args:
            if v[1] not in (None, ty):
                raise Bad("numbers of different types")
        if ty:
            args = [self.typed(v, ty) for v in args]
        x, y = (args + [None])[:2]
        if h in ("eq?", "lt?", "le?", "gt?", "ge?", "ne?"):
            if h in ("gt?", "ge?"):
                x, y, h = y, x, {"gt?": "lt?", "ge?": "le?"}[h]
            if h == "lt?":
                r = True if x[3] < y[2] else False if x[2] >= y[3] else None
            elif h == "le?":
                r = True if x[3] <= y[2] else False if x[2] > y[3] else None
            else:
                r = True if x[2] == x[3] == y[2] == y[3] else False if x[3] < y[2] or x[2] > y[3] else None
                if r is None and x[4] is not None and y[4] is not None:
                    n = max(len(x[4]), len(y[4]))
                    p, q = [list(z[4]) + [0] * (n - len(z[4])) for z in (x, y)]
                    if any(i in (0, 1) and j in (0, 1) and i != j for i, j in zip(p, q)):
                        r = False
                r = not r if h == "ne?" and r is not None else r
            if r is None:
                raise Bad("a comparison that is not decided: %s with %s" % (str(x[1:4]), str(y[1:4])))
            return ("bool", r)
        if x[4] is None or y[4] is None:
            raise Bad("an operation on a number of unknown bits")
        if h in ("bw&", "bw|"):
            n = max(len(x[4]), len(y[4]))
            p, q = [list(z[4]) + [0] * (n - len(z[4])) for z in (x, y)]
            out = []
            for i, j in zip(p, q):
                a, b = (i, j) if i in (0, 1) else (j, i)
                if a == b:
                    out.append(a)
                elif a not in (0, 1):
                    raise Bad("bits that are mixed")
                elif h == "bw&":
                    out.append(b if a else 0)
                else:
                    out.append(1 if a else b)
            return of_bits(out, ty, args)
        n = constant(y)
        if h == "bw<<":
            return of_bits([0] * n + list(x[4]), ty or None, ())
        if h == "bw>>":
            return of_bits(x[4][n:], ty, ())
        raise Bad("an operation that is not followed: %s" % h)

    def settle(self, v):
        raise Bad("an order that is not known")


ORDER = {"eq?": lambda o: o == 0, "ne?": lambda o: o != 0, "lt?": lambda o: o < 0, "le?": lambda o: o <= 0, "gt?": lambda o: o > 0, "ge?": lambda o: o >= 0}
ARITH = {"eq?", "ne?", "lt?", "le?", "gt?", "ge?", "bw&", "bw|", "bw<<", "bw>>"}


# ---------------------------------------------------------------- what the operations are
def p(n, t):
    return ("p", n, t)


def norm(v):
    """the same operation, written one way"""
    if not isinstance(v, tuple) or v[:1] != ("op",):
        return v
    n, a = v[1], tuple(norm(x) for x in v[2])
    k, _, o = n.partition(".")
    if o in ("gt", "ge") and len(a) == 2:
        return ("op", k + {"gt": ".lt", "ge": ".le"}[o], (a[1], a[0]))
    if o in ("add", "mul", "eq") or n in ("integer.and", "integer.or", "integer.xor"):
        a = tuple(sorted(a, key=str))
    if n in ("signed.add", "unsigned.add", "signed.sub", "unsigned.sub", "signed.mul", "unsigned.mul"):
        # these wrap around the same way
        n = "integer." + o
    if n == "no-op":
        return a[0] if a else v
    return ("op", n, a)


def numeric():
    """(class, method, type, parameters, what it is)"""
    a = lambda t: p("a", t)
    b = lambda t: p("b", t)
    for t in INTS + FLOATS:
        k = "signed" if t in SIGNED else "unsigned" if t in UNSIGNED else "float"
        for m in ("add", "sub", "mul", "div", "rem"):
            yield m.capitalize(), m, t, 2, ("op", "%s.%s" % (k, m), (a(t), b(t)))
        for m in ("lt", "le", "gt", "ge"):
            yield "Ord", m + "?", t, 2, ("op", "%s.%s" % (k, m), (a(t), b(t)))
        yield "Eq", "eq?", t, 2, ("op", "float.eq" if k == "float" else "integer.eq", (a(t), b(t)))
        for c, m, n in (("Zero", "zero", 0), ("One", "one", 1), ("Default", "default", 0)):
            yield c, m, t, 0, ("number", n)
        yield "ShallowCopy", "shallow-copy", t, 1, a(t)
        yield "DeepCopy", "deep-copy", t, 1, a(t)
    for t in INTS:
        for m, o in (("bw<<", "shl"), ("bw>>", "ashr" if t in SIGNED else "lshr"), ("bw&", "and"), ("bw|", "or"), ("bw^", "xor")):
            yield "Bits", m, t, 2, ("op", "integer." + o, (a(t), b(t)))
        yield "Bits", "bw!", t, 1, ("op", "integer.complement", (a(t),))
        yield "Bits", "popcount", t, 1, ("op", "integer.popcount", (a(t),))
        yield "Integer", "integer/min", t, 0, ("number", limits(t)[0])
        yield "Integer", "integer/max", t, 0, ("number", limits(t)[1])
    for t in FLOATS:
        for m in ("ceil", "floor", "trunc", "round"):
            yield "Real", m, t, 1, ("op", "real." + m, (a(t),))
        for m in ("sqrt", "sin", "cos", "exp", "log"):
            yield "Math", m, t, 1, ("op", "math." + m, (a(t),))
        yield "Math", "pow", t, 2, ("op", "math.pow", (a(t), b(t)))
        yield "Math", "pi", t, 0, ("number", 3.141592653589793)
    for t in ("Char", "Bool", "Ordering"):
        yield "Eq", "eq?", t, 2, ("op", "integer.eq", (a(t), b(t)))
        for m in ("lt", "le", "gt", "ge"):
            yield "Ord", m + "?", t, 2, ("op", "unsigned." + m, (a(t), b(t)))
        yield "DeepCopy", "deep-copy", t, 1, a(t)


def conversion(f, t):
    a = (p("a", f),)
    if f in FLOATS and t in FLOATS:
        return ("op", "float.ext" if t == "F64" else "float.trunc", a)
    if f in FLOATS:
        return ("op", "float.to-signed" if t in SIGNED else "float.to-unsigned", a)
    k = "signed" if f in SIGNED else "unsigned"
    if t in FLOATS:
        return ("op", k + ".to-float", a)
    if WIDTH[t] < WIDTH[f]:
        return ("op", "integer.trunc", a)
    if WIDTH[t] > WIDTH[f]:
        return ("op", k + ".ext", a)
    return ("op", "bitcast", a)


def value(v):
    return ("number", v[2]) if v[0] == "n" and v[2] == v[3] else ("number", v[1]) if v[0] == "lit" else norm(v)


def guard(ck, key, f):
    try:
        return f()
    except (Bad, RecursionError, IndexError, KeyError, TypeError, ValueError) as x:
        ck.oblige(False, "unanalysed:%s" % key, "%s: %s" % (key, x if isinstance(x, Bad) else "%s %s" % (type(x).__name__, x)))


def machine(ck, L):
    """operations of the classes on each machine type"""
    where = {}
    for c, m, t, n, want in numeric():
        ck.count("methods on machine types")
        key = "%s on %s" % (m, t)

        def f():
            ins = L.instances.get((c, t), [])
            if not ck.oblige(len(ins) == 1 and m in ins[0][0], "missing:%s" % key, "%s is not implemented once for %s" % (m, t)):
                return
            got = value(L.call(ins[0][0][m], [p(x, t) for x in "ab"[:n]], t if n == 0 else None))
            ck.oblige(got == value(want) or same(got, want), key, "%s (%s) is %s instead of %s" % (key, ins[0][1], got, value(want)))
        guard(ck, key, f)
    for f_ in INTS + FLOATS:
        for t in INTS + FLOATS:
            if f_ == t:
                continue
            ck.count("conversions")
            key = "conversion from %s to %s" % (f_, t)

            def f():
                ins = L.instances.get(("Conv", f_, t), [])
                if ck.oblige(len(ins) == 1, "missing:%s" % key, "the %s is not defined once" % key):
                    got, want = norm(L.call(ins[0][0]["conv"], [p("a", f_)])), norm(conversion(f_, t))
                    ck.oblige(got == want or (want[1] == "bitcast" and got == want[2][0]), key, "the %s (%s) is %s instead of %s" % (key, ins[0][1], got, want))
            guard(ck, key, f)


def same(got, want):
    return want[0] == "number" and got[0] == "number" and abs(float(got[1]) - float(want[1])) == 0


def texts(ck, L):
    """numbers read from and written as text"""
    for t in INTS:
        lo, hi = limits(t)
        big = "I64" if t in SIGNED else "U64"
        blo, bhi = limits(big)
        key = "integer/from-string? of %s" % t
        ins = L.instances.get(("Integer", t), [])
        cuts = sorted({blo, bhi + 1, lo, hi + 1, 0, 1})
        for code in (0, 1):
            for i, j in zip(cuts, cuts[1:]):
                ck.count("ranges of numbers read")
                v = unknown("v", big, i, j - 1)

                def f():
                    def c(d, args, expect=None, self_ty=None):
                        return Lib.call(L, d, args, expect, self_ty)
                    L.answer = ("con", "<result>:", (num(code, "I32"), v))
                    got = L.call(ins[0][0]["integer/from-string?"], [p("radix", "U8"), p("s", "String")])
                    ok = code != 0 and lo <= i and j - 1 <= hi
                    good = got == ("con", "none", ()) if not ok else got[:2] == ("con", "some") and got[2][0][2:4] == v[2:4]
                    ck.oblige(good, key, "%s: a number of %d to %d that is %s gives %s" % (key, i, j - 1, "read" if code else "not read", got))
                    ck.oblige(L.asked == ("llrt_string_to_" + big.lower(), ("p", "radix", "U8"), ("p", "s", "String")), key + " asks", "%s reads %s" % (key, L.asked))
                guard(ck, key, f)
    for t in FLOATS:
        key = "float/from-string? of %s" % t
        ins = L.instances.get(("Float", t), [])
        for code in (0, 1):
            def f():
                L.answer = ("con", "<result>:", (num(code, "I32"), p("v", t)))
                got = L.call(ins[0][0]["float/from-string?"], [p("s", "String")])
                ck.count("ranges of numbers read")
                ck.oblige(got == (("con", "some", (p("v", t),)) if code else ("con", "none", ())), key, "%s: what is %s gives %s" % (key, "read" if code else "not read", got))
                ck.oblige(L.asked == ("llrt_string_to_" + t.lower(), ("p", "s", "String")), key + " asks", "%s reads %s" % (key, L.asked))
            guard(ck, key, f)

        def f():
            L.answer = ("str", "r")
            L.call(ins[0][0]["float/to-string"], [p("value", t)])
            ck.oblige(L.asked == ("llrt_%s_to_string" % t.lower(), p("value", t)), "float/to-string of %s" % t, "float/to-string of %s asks %s" % (t, L.asked))
        guard(ck, "float/to-string of %s" % t, f)


# ---------------------------------------------------------------- functions of any type
def generic(ck, L):
    """functions of any number or ordered type, by the order of their operands"""
    a, b = p("a", "A"), p("b", "A")
    zero, one = ("later", "zero"), ("later", "one")

    def get(n):
        d = L.global_.get(n, [])
        if len(d) != 1:
            raise Bad("%s is not defined once" % n)
        return d[0]

    def plain(v):
        """without where it was found"""
        if isinstance(v, tuple) and v[:1] == ("later",):
            return v[:2]
        if isinstance(v, tuple) and v[:1] == ("op",):
            return ("op", v[1], tuple(plain(x) for x in v[2]))
        return v

    def run(key, f, want):
        def g():
            ck.count("functions of any type, by order of operands")
            got = plain(f())
            ck.oblige(got in want, key, "%s is %s instead of %s" % (key, got, " or ".join(map(str, want))))
        try:
            guard(ck, key, g)
        finally:
            L.order = None
            del L.stack[:]

    for n, w in (("negate", ("op", "sub", (zero, a))), ("recip", ("op", "div", (one, a)))):
        run(n, lambda: L.call(get(n), [a]), [w])
    run("succ", lambda: L.call(get("succ"), [a]), [("op", "add", (a, one)), ("op", "add", (one, a))])
    run("pred", lambda: L.call(get("pred"), [a]), [("op", "sub", (a, one))])
    names = {-1: "less than", 0: "equal to", 1: "greater than"}
    for o in (-1, 0, 1):
        def order(x, y):
            x, y = plain(x), plain(y)
            return o if (x, y) == (a, b) else -o if (x, y) == (b, a) else None

        def sign(x, y):
            x, y = plain(x), plain(y)
            return o if (x, y) == (a, zero) else -o if (x, y) == (zero, a) else None

        def under(rule, f):
            def g():
                L.order = rule
                return f()
            return g
        at = " of a %s b" % names[o]
        run("min" + at, under(order, lambda: L.call(get("min2"), [a, b])), [a] if o < 0 else [b] if o > 0 else [a, b])
        run("max" + at, under(order, lambda: L.call(get("max2"), [a, b])), [b] if o < 0 else [a] if o > 0 else [a, b])
        run("abs of a %s zero" % names[o], under(sign, lambda: L.call(get("abs"), [a])), [a] if o >= 0 else [("op", "sub", (zero, a)), ("op", "negate", (a,))])
        con = ("con", ["ordering:equal", "ordering:greater", "ordering:less"][o], ())
        for c, m in (("Ord", "compare"), ("Ord", "lt?"), ("Ord", "le?"), ("Ord", "gt?"), ("Ord", "ge?"), ("Eq", "ne?")):
            def f(c=c, m=m):
                L.order = order
                d = L.classes[c][1][m]
                if not d[3]:
                    raise Bad("a method without a definition")
                return L.call(d, [a, b])
            run("%s by default%s" % (m, at), f, [con if m == "compare" else ("bool", ORDER[m](o))])
        run("the number of " + con[1], lambda: L.call(get("ordering/order-value"), [con])[2], [o])
        run("the order of number %d" % o, lambda: L.call(get("ordering/from-order-value"), [num(o, "I32")]), [con])


def literals(L, fs):
    """the numbers that a function compares with: where its values may change"""
    out, seen = set(), set()

    def walk(x, f):
        if isinstance(x, str):
            if re.fullmatch(r"\d+", x):
                out.add(int(x))
            d = L.lookup(f, x)
            if d and d[0] == "fun" and id(d) not in seen:
                seen.add(id(d))
                walk(d[3], d[4])
        elif isinstance(x, list):
            for y in x:
                walk(y, f)
    for d in fs:
        walk(d[3], d[4])
    return out


def regions(cuts, lo, hi):
    cs = sorted({c for c in cuts if lo < c <= hi} | {lo, hi + 1})
    return [(i, j - 1) for i, j in zip(cs, cs[1:])]


SCALAR = lambda i, j: j <= 0x10FFFF and (j < 0xD800 or i > 0xDFFF)
CUTS = {0x80, 0x800, 0x10000, 0xD800, 0xE000, 0x110000}


def near(ls):
    return {x + d for x in ls for d in (0, 1)}


def one(L, n):
    d = L.global_.get(n, [])
    if len(d) != 1:
        raise Bad("%s is not defined once" % n)
    return d[0]


def utf8_of(x, n):
    """the bytes of a character of n bytes (bits of x)"""
    def part(lo, k, head, size):
        bits = [(x[4][i] if i < len(x[4]) else 0) for i in range(lo, lo + k)] + [0] * (size - k)
        for i in range(8 - size):
            bits.append((head >> (size + i)) & 1)
        return of_bits(bits, "U8")
    if n == 1:
        return [part(0, 7, 0, 7)]
    head, k = {2: (0xC0, 5), 3: (0xE0, 4), 4: (0xF0, 3)}[n]
    return [part(6 * (n - 1), k, head, k)] + [part(6 * i, 6, 0x80, 6) for i in reversed(range(n - 1))]


def utf8(ck, L):
    enc, step = one(L, "encode"), one(L, "decode-step")
    ls = near(literals(L, [enc, step])) | CUTS
    valid, cont = one(L, "decode/valid?"), one(L, "decode/continue?")

    def clean():
        L.order, L.answer, L.watch = None, None, None
        del L.stack[:], L.done[:]
    size = lambda j: 1 if j < 0x80 else 2 if j < 0x800 else 3 if j < 0x10000 else 4

    def show(i, j):
        return "%#x to %#x" % (i, j)

    for i, j in regions(ls, 0, (1 << 32) - 1):
        def f():
            clean()
            ck.count("ranges of characters")
            x = unknown("x", "U32", i, j)
            got = L.call(enc, [x])
            if not SCALAR(i, j):
                return ck.oblige(got == ("con", "encode:invalid", ()), "encode", "encode of %s, which is no character, is %s" % (show(i, j), got))
            n = size(j)
            want = utf8_of(x, n)
            ok = got[:2] == ("con", "encode:success") and got[2][0][:2] == ("con", "complete:%s" % ("latin" if n == 1 else n)) and [v[4] for v in got[2][0][2]] == [v[4] for v in want]
            ck.oblige(ok, "encode", "encode of %s is %s instead of %s" % (show(i, j), got, [v[4] for v in want]))
            clean()
            got = L.call(one(L, "char/utf-8-length"), [x])
            ck.oblige(got[:1] == ("n",) and got[2] == got[3] == n, "length", "char/utf-8-length of %s is %s instead of %d" % (show(i, j), got, n))
            clean()
            L.watch = {"array/unsafe-temporary-bytearray", "array/ptr"}
            d = L.instances[("Display", "Char")][0][0]["display!"]
            got = L.call(d, [p("w", "W"), x])
            tmp = lambda v: v[:2] == ("op", "array/unsafe-temporary-bytearray")
            ok = [(k[2], v[4]) for t, k, v in L.done] == [(k, v[4]) for k, v in enumerate(want)] and all(tmp(t) for t, k, v in L.done)
            ck.oblige(ok, "display", "display! of a character of %s writes %s instead of %s" % (show(i, j), [(k[2], v[4]) for t, k, v in L.done], [v[4] for v in want]))
            s = got[2][1] if got[:2] == ("op", "display!") and len(got[2]) == 2 else None
            ok = s and s[:2] == ("op", "string.construct") and s[2][0][:2] == ("op", "array/ptr") and tmp(s[2][0][2][0]) and s[2][1][2:4] == (n, n) and got[2][0] == p("w", "W")
            ck.oblige(ok, "display", "display! of a character of %s shows %s instead of its %d bytes" % (show(i, j), got, n))
        guard(ck, "encode of " + show(i, j), f)

    # every sequence of a header and as many following bytes as it asks for
    for n in (1, 2, 3, 4):
        for i, j in regions(ls, 0, (1 << {1: 7, 2: 11, 3: 16, 4: 21}[n]) - 1):
            def f():
                clean()
                ck.count("ranges of sequences of bytes")
                x = unknown("x", "U32", i, j)
                state = ("con", "none", ())
                bs = utf8_of(x, n)
                for k, b in enumerate(bs):
                    got = L.call(step, [state, b])
                    if k < n - 1:
                        good = got[:2] == ("con", "decode:continue") and L.call(valid, [got]) == ("bool", True)
                        state = L.call(cont, [got])
                        if not ck.oblige(good and state[:2] == ("con", "some"), "decode", "byte %d of %d of %s gives %s" % (k + 1, n, show(i, j), got)):
                            return
                ok = SCALAR(i, j) and size(j) == n
                if ok:
                    good = got[:2] == ("con", "decode:produce") and got[2][0][4] == x[4] and L.call(valid, [got]) == ("bool", True)
                else:
                    good = got == ("con", "decode:invalid", ()) and L.call(valid, [got]) == ("bool", False)
                ck.oblige(good and L.call(cont, [got]) == ("con", "none", ()), "decode", "the sequence of %d bytes for %s gives %s instead of %s" % (n, show(i, j), got, "that" if ok else "an error"))
            guard(ck, "decode of %d bytes for %s" % (n, show(i, j)), f)

    # every other byte in every state
    classes = {"latin": (7, 0x00), "following": (6, 0x80), "of two": (5, 0xC0), "of three": (4, 0xE0), "of four": (3, 0xF0), "no header": (3, 0xF8)}

    def byte(c, name):
        k, head = classes[c]
        return of_bits([(name, m) for m in range(k)] + [(head >> m) & 1 for m in range(k, 8)], "U8")
    some = lambda n, m: ("con", "some", (("con", n, m),))
    states = {"the start": [], "one of two": ["of two"], "one of three": ["of three"], "two of three": ["of three", "following"],
              "one of four": ["of four"], "two of four": ["of four", "following"], "three of four": ["of four", "following", "following"]}
    for sn, prefix in states.items():
        for c in classes:
            if sn != "the start" and c == "following":
                continue
            if sn == "the start" and c.startswith(("latin", "of ")):
                if c == "latin":
                    continue

            def f():
                clean()
                ck.count("bytes in states")
                state = ("con", "none", ())
                for k, q in enumerate(prefix):
                    state = L.call(cont, [L.call(step, [state, byte(q, "p%d" % k)])])
                b = byte(c, "b")
                got = L.call(step, [state, b])
                ok = sn == "the start" and c.startswith("of ")
                if ok:
                    good = got[:2] == ("con", "decode:continue")
                elif c == "latin":
                    good = got[:2] == ("con", "decode:invalid-produce") and got[2][0][4] == b[4]
                else:
                    good = got == ("con", "decode:invalid", ())
                good = good and L.call(valid, [got]) == ("bool", ok)
                ck.oblige(good, "byte", "after %s a byte that is %s gives %s" % (sn, c, got))
            guard(ck, "after %s a byte that is %s" % (sn, c), f)
    clean()


def scalars(ck, L):
    """char/from-unicode-scalar: all scalar values and nothing else"""
    d = one(L, "char/from-unicode-scalar")
    wrong = []
    for i, j in regions(near(literals(L, [d])) | CUTS, 0, (1 << 32) - 1):
        def f():
            ck.count("ranges of characters")
            x = unknown("x", "U32", i, j)
            got = L.call(d, [x])
            if got != (("con", "some", (x,)) if SCALAR(i, j) else ("con", "none", ())):
                if wrong and wrong[-1][1] == i - 1 and wrong[-1][2] == SCALAR(i, j):
                    wrong[-1] = (wrong[-1][0], j, wrong[-1][2])
                else:
                    wrong.append((i, j, SCALAR(i, j)))
            del L.stack[:]
        guard(ck, "char/from-unicode-scalar of %#x to %#x" % (i, j), f)
    ck.count("obligations of characters")
    for i, j, s in wrong:
        ck.oblige(False, "char/from-unicode-scalar:%x-%x" % (i, j), "char/from-unicode-scalar %s %#x to %#x" % ("does not give the scalar values" if s else "accepts what is no scalar value:", i, j))


def escapes(ck, L):
    esc, un = one(L, "char/escape?"), one(L, "char/unescape?")
    raw = {"\\t": "\t", "\\r": "\r", "\\n": "\n", "\\\\": "\\", "\\": "\\", '\\"': '"', '"': '"'}
    chars = set()

    def walk(x):
        if isinstance(x, str) and x.startswith("#\\"):
            chars.add(x[2:])
        elif isinstance(x, list):
            for y in x:
                walk(y)
    walk(esc[3])
    walk(un[3])
    must = {"\\t", "\\r", "\\n", '"', "\\\\"}
    text = lambda c: raw.get(c, c)
    escaped = {}
    for c in sorted(chars | must | {"another"}):
        def f():
            ck.count("characters escaped")
            got = L.call(esc, [("char", c)])
            if got == ("con", "none", ()):
                ck.oblige(text(c) not in {text(m) for m in must}, "escape", "the character %r is not escaped" % c)
                return
            s = got[2][0][1]
            # the text: as in the source, where each backslash is written twice
            ck.oblige(s.startswith("\\\\") and len(s) > 2, "escape", "the character %r is written as %r" % (c, s))
            d = s[2:]
            d = d[1:] if d == '\\"' else d
            back = L.call(un, [("char", d)])
            ck.oblige(back[:2] == ("con", "some") and text(back[2][0][1]) == text(c), "escape", "the character %r is written as %r, which is read as %s" % (c, s, back))
        guard(ck, "escape of %r" % c, f)
