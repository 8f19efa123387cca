"""Value terms used to describe what a generated instruction sequence computes.

Fixed-width terms in a canonical form: linear combinations modulo 2^(8w), byte concatenations, zero and sign
extensions, and named operations.  Equal canonical forms denote equal values; no solver is involved.
A byte is an int, a pair (term, index), ("S", term) - a copy of the term's sign bit - or ("J", name), an unspecified byte.
"""

FCMP = {"flt", "fle", "feq", "fequn", "ford"}


def K(w, v):
    return ("k", w, v & ((1 << (8 * w)) - 1))


def V(w, name):
    return ("v", w, name)


def width(t):
    return t[1]


def BOOL(c):
    if c is True or c is False:
        return K(1, int(c))
    return ("bool", 1, c)


def NOT(c):
    if c is True or c is False:
        return not c
    return c[1] if c[0] == "not" else ("not", c)


def AND(a, b):
    for x, y in ((a, b), (b, a)):
        if x is True:
            return y
        if x is False:
            return False
    if a == b:
        return a
    a, b = sorted((a, b), key=repr)
    for x, y in ((a, b), (b, a)):
        if x[0] == "fequn" and y[0] == "ford" and sorted(x[1:], key=repr) == sorted(y[1:], key=repr):
            return ("feq",) + tuple(sorted(x[1:], key=repr))
    return ("and", a, b)


def OR(a, b):
    return NOT(AND(NOT(a), NOT(b)))


def XOR(a, b):
    for x, y in ((a, b), (b, a)):
        if x is False:
            return y
        if x is True:
            return NOT(y)
    if a == b:
        return False
    n = 0
    if a[0] == "not":
        a, n = a[1], n ^ 1
    if b[0] == "not":
        b, n = b[1], n ^ 1
    a, b = sorted((a, b), key=repr)
    return NOT(("xor", a, b)) if n else ("xor", a, b)


def EQ(a, b):
    if a == b:
        return True
    if a[0] == "k" and b[0] == "k":
        return False
    if b[0] == "k" or (a[0] != "k" and repr(a) > repr(b)):
        a, b = b, a
    # a constant is first
    if a[0] == "k" and b[0] == "bool":
        return NOT(b[2]) if a[2] == 0 else (b[2] if a[2] == 1 else False)
    if a[0] == "k" and b[0] == "zx" and b[2][1] < b[1]:
        t = b[2]
        return EQ(K(t[1], a[2]), t) if a[2] < (1 << (8 * t[1])) else False
    return ("eq", a, b)


def sval(t):
    v = t[2]
    return v - (1 << (8 * t[1])) if v >> (8 * t[1] - 1) else v


def SLT(a, b):
    if a == b:
        return False
    if a[0] == "k" and b[0] == "k":
        return sval(a) < sval(b)
    return ("slt", a, b)


def ULT(a, b):
    if a == b:
        return False
    if a[0] == "k" and b[0] == "k":
        return a[2] < b[2]
    if b[0] == "k" and b[2] == 0:
        return False
    return ("ult", a, b)


def FC(op, a, b):
    if op in ("feq", "fequn", "ford"):
        a, b = sorted((a, b), key=repr)
    return (op, a, b)


# ---- bytes
def bytes_of(t):
    h, w = t[0], t[1]
    if h == "k":
        return list(t[2].to_bytes(w, "little"))
    if h == "zx":
        return bytes_of(t[2]) + [0] * (w - t[2][1])
    if h == "sx":
        return bytes_of(t[2]) + [("S", t[2])] * (w - t[2][1])
    if h == "cat":
        return list(t[2])
    if h == "ext":
        return [(t[2], t[3] + i) for i in range(w)]
    return [(t, i) for i in range(w)]


def isjunk(b):
    return isinstance(b, tuple) and b[0] == "J"


def _is_at(b, t, i):
    return isinstance(b, tuple) and len(b) == 2 and b[1] == i and b[0] == t


def mk(bs):
    """the canonical term of a byte sequence"""
    w = len(bs)
    if all(isinstance(b, int) for b in bs):
        return K(w, int.from_bytes(bytes(bs), "little"))
    b0 = bs[0]
    if isinstance(b0, tuple) and b0[0] not in ("S", "J"):
        t, i0 = b0
        n = 1
        while n < w and _is_at(bs[n], t, i0 + n):
            n += 1
        if n == w:
            if i0 == 0 and t[1] == w:
                return t
            return ext(t, i0, w)
        base = mk(bs[:n])
        if all(b == 0 for b in bs[n:]):
            return ("zx", w, base)
        if all(b == ("S", base) for b in bs[n:]):
            return ("sx", w, base)
        # the sign byte of a longer prefix made of several pieces
    for n in range(w - 1, 0, -1):
        if bs[n] == 0:
            continue
        break
    else:
        n = 0
    if n + 1 < w:
        p = mk(bs[:n + 1])
        if p[0] == "zx":
            return ("zx", w, p[2])
        return ("zx", w, p) if p[0] != "k" else K(w, p[2])
    last = bs[-1]
    if isinstance(last, tuple) and last[0] == "S":
        n = last[1][1]
        if n < w and all(b == last for b in bs[n:]) and mk(bs[:n]) == last[1]:
            return ("sx", w, last[1])
    return ("cat", w, tuple(bs))


def ext(t, i, w):
    """bytes i..i+w of a term"""
    if i == 0 and w == t[1]:
        return t
    if t[0] in ("k", "zx", "sx", "cat", "ext"):
        return mk(bytes_of(t)[i:i + w])
    if i == 0:
        if t[0] == "lin":
            return lin_of(w, [(ext(x, 0, w), k) for x, k in t[2]], t[3])
        if t[0] == "op" and t[2] in ("mul", "and", "or", "xor"):
            return {"mul": MUL, "and": BAND, "or": BOR, "xor": BXOR}[t[2]](ext(t[3], 0, w), ext(t[4], 0, w))
    return ("ext", w, t, i)


def trunc(t, w):
    return ext(t, 0, w) if w < t[1] else t


def zx(t, w):
    if w == t[1]:
        return t
    return mk(bytes_of(t) + [0] * (w - t[1]))


def sx(t, w):
    if w == t[1]:
        return t
    if t[0] == "k":
        return K(w, sval(t))
    if t[0] == "zx" or t[0] == "bool":
        return zx(t, w)
    if t[0] == "sx":
        return ("sx", w, t[2])
    return mk(bytes_of(t) + [("S", t)] * (w - t[1]))


def signbyte(t):
    if t[0] == "k":
        return 0xff if sval(t) < 0 else 0
    if t[0] in ("zx", "bool"):
        return 0
    if t[0] == "sx":
        return ("S", t[2])
    return ("S", t)


# ---- linear forms
def parts(t):
    if t[0] == "k":
        return [], t[2]
    if t[0] == "lin":
        return list(t[2]), t[3]
    return [(t, 1)], 0


def lin_of(w, items, c):
    m = (1 << (8 * w)) - 1
    d = {}
    for t, k in items:
        if t[0] == "k":
            c += t[2] * k
        elif t[0] == "lin":
            c += t[3] * k
            for x, j in t[2]:
                d[x] = d.get(x, 0) + j * k
        else:
            d[t] = d.get(t, 0) + k
    d = {t: k & m for t, k in d.items() if k & m}
    c &= m
    if not d:
        return K(w, c)
    if c == 0 and len(d) == 1 and list(d.values()) == [1]:
        return list(d)[0]
    return ("lin", w, tuple(sorted(d.items(), key=repr)), c)


def ADD(a, b):
    return lin_of(a[1], [(a, 1), (b, 1)], 0)


def SUB(a, b):
    return lin_of(a[1], [(a, 1), (b, -1)], 0)


def NEG(a):
    return lin_of(a[1], [(a, -1)], 0)


def MUL(a, b):
    w = a[1]
    if a[0] == "k":
        a, b = b, a
    if b[0] == "k":
        return lin_of(w, [(a, b[2])], 0)
    a, b = sorted((a, b), key=repr)
    return ("op", w, "mul", a, b)


def _bits(name, a, b, byte):
    """bytewise operation with folding; `byte(x, const)` gives the folded byte or None"""
    w = a[1]
    if a == b:
        return K(w, 0) if name == "xor" else a
    if a[0] == "k" and b[0] == "k":
        f = {"and": int.__and__, "or": int.__or__, "xor": int.__xor__}[name]
        return K(w, f(a[2], b[2]))
    if w == 1 and a[0] in ("bool", "k") and b[0] in ("bool", "k"):
        ca = a[2] if a[0] == "bool" else (bool(a[2]) if a[2] < 2 else None)
        cb = b[2] if b[0] == "bool" else (bool(b[2]) if b[2] < 2 else None)
        if ca is not None and cb is not None:
            return BOOL({"and": AND, "or": OR, "xor": XOR}[name](ca, cb))
    A, B = bytes_of(a), bytes_of(b)
    out = []
    folded = False
    for x, y in zip(A, B):
        r = None
        if x == y:
            r = 0 if name == "xor" else x
        elif isinstance(x, int) and isinstance(y, int):
            r = {"and": x & y, "or": x | y, "xor": x ^ y}[name]
        else:
            for p, q in ((x, y), (y, x)):
                if isinstance(p, int):
                    r = byte(q, p)
        if isjunk(r) or (r is None and (isjunk(x) or isjunk(y))):
            r = ("J", "bits")
        if r is not None:
            folded = True
        out.append(r)
    if not folded:
        a, b = sorted((a, b), key=repr)
        if name == "xor" and "k" in (a[0], b[0]):
            t, k = (b, a) if a[0] == "k" else (a, b)
            if k[2] == 1 << (8 * w - 1):
                return ADD(t, k)
            if t[0] == "op" and t[2] == "xor" and t[3][0] == "k":
                return BXOR(t[4], K(w, k[2] ^ t[3][2]))
            if t[0] == "op" and t[2] == "xor" and t[4][0] == "k":
                return BXOR(t[3], K(w, k[2] ^ t[4][2]))
            if k[2] == (1 << (8 * w)) - 1 and t[0] == "lin" and False:
                pass
        return ("op", w, name, a, b)
    # group the unfolded runs
    i = 0
    res = []
    while i < w:
        if out[i] is not None:
            res.append(out[i])
            i += 1
            continue
        j = i
        while j < w and out[j] is None:
            j += 1
        p, q = mk(A[i:j]), mk(B[i:j])
        p, q = sorted((p, q), key=repr)
        t = ("op", j - i, name, p, q)
        if j - i == 1:
            t = _bits1(name, p, q)
        res += bytes_of(t)
        i = j
    return mk(res)


def _bits1(name, p, q):
    if p[0] in ("bool", "k") and q[0] in ("bool", "k"):
        return _bits(name, p, q, lambda x, k: None)
    return ("op", 1, name, p, q)


def BAND(a, b):
    return _bits("and", a, b, lambda x, k: 0 if k == 0 else (x if k == 0xff else None))


def BOR(a, b):
    return _bits("or", a, b, lambda x, k: x if k == 0 else (0xff if k == 0xff else None))


def BXOR(a, b):
    return _bits("xor", a, b, lambda x, k: x if k == 0 else None)


def SHL(a, n):
    """shift by a constant"""
    w = a[1]
    if n % 8 == 0:
        return mk([0] * min(w, n // 8) + bytes_of(a)[:max(0, w - n // 8)])
    return lin_of(w, [(a, 1 << n)], 0)


def LSHR(a, n):
    w = a[1]
    if n % 8 == 0:
        return mk(bytes_of(a)[n // 8:] + [0] * min(w, n // 8))
    if a[0] == "k":
        return K(w, a[2] >> n)
    return ("op", w, "lshr", a, K(1, n))


def ASHR(a, n):
    w = a[1]
    if n == 8 * w - 1:
        return mk([signbyte(a)] * w)
    if n % 8 == 0:
        return mk(bytes_of(a)[n // 8:] + [signbyte(a)] * min(w, n // 8))
    if a[0] == "k":
        return K(w, sval(a) >> n)
    return ("op", w, "ashr", a, K(1, n))


def SHIFT(name, a, cnt):
    """shift by a one-byte count term"""
    if cnt[0] == "k":
        return {"shl": SHL, "lshr": LSHR, "ashr": ASHR}[name](a, cnt[2] & (63 if a[1] == 8 else 31))
    return ("op", a[1], name, a, cnt)


def OP(w, name, *args):
    if name in ("fadd", "fmul"):
        args = tuple(sorted(args, key=repr))
    return ("op", w, name) + tuple(args)


def POPCNT(a, w):
    while a[0] == "zx":
        a = a[2]
    return zx(("op", 1, "popcnt", a), w)


def ITOF(wf, a):
    """conversion of a two's complement integer register to floating point"""
    if a[0] == "zx":
        return ("op", wf, "itof", "z", a[2])
    if a[0] == "bool":
        return ("op", wf, "itof", "z", a)
    if a[0] == "sx":
        return ("op", wf, "itof", "s", a[2])
    return ("op", wf, "itof", "s", a)


def halve(x):
    """x / 2 rounded to odd: the usual step of an unsigned 64-bit to floating point conversion"""
    return BOR(LSHR(x, 1), BAND(x, K(x[1], 1)))


def subterms(t, seen=None):
    seen = set() if seen is None else seen
    if not isinstance(t, tuple) or t in seen:
        return
    seen.add(t)
    yield t
    for x in t:
        if isinstance(x, tuple):
            yield from subterms(x, seen)


def show(t, d=0):
    if not isinstance(t, tuple):
        return str(t)
    if d > 8:
        return "…"
    h = t[0]
    if h == "k":
        return hex(t[2]) if t[2] > 9 else str(t[2])
    if h == "v":
        return str(t[2])
    if h in ("zx", "sx"):
        return "%s%d(%s)" % (h, 8 * t[1], show(t[2], d + 1))
    if h == "ext":
        return "%s[%d..%d]" % (show(t[2], d + 1), t[3], t[3] + t[1])
    if h == "lin":
        return "(" + " + ".join(("%d*" % k if k != 1 else "") + show(x, d + 1) for x, k in t[2]) + (" + %#x" % t[3] if t[3] else "") + ")"
    if h == "bool":
        return "bool(%s)" % show(t[2], d + 1)
    if h == "cat":
        return "cat(%s)" % ",".join(showb(b) for b in t[2])
    if h == "op":
        return "%s%d(%s)" % (t[2], 8 * t[1], ", ".join(show(x, d + 1) for x in t[3:]))
    if h == "p":
        return str(t[1])
    if h == "ld":
        return "load#%s[%s%+d]:%d" % (t[2], "+".join(show(x[0], d + 1) for x in t[3]), t[4], t[1])
    return h + "(" + ", ".join(show(x, d + 1) for x in t[1:]) + ")"


def showb(b):
    if isinstance(b, int):
        return "%02x" % b
    if b[0] == "S":
        return "sign(%s)" % show(b[1])
    if b[0] == "J":
        return "?"
    return "%s.%d" % (show(b[0]), b[1])


def showbs(bs):
    if not bs:
        return "()"
    try:
        return show(mk(list(bs)))
    except Exception:
        return ",".join(showb(b) for b in bs)
