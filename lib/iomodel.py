"""Models of std::io writers, cursors and byte order extensions for the abstract interpreter, and linear normal forms."""
from absint import *

CUR = "$Cursor"      # fields: bytes written since entry, base position term (or 0), seek position or UNIT, patches


def cursor(base=None):
    return ("adt", CUR, 0, "", (("arr", ()), base if base is not None else I(0, "u64"), UNIT, ("arr", ())))


def lin(v):
    """linear normal form of an integer term: (const, ((term, coefficient), ...)) - casts between integer types are transparent"""
    c, m = _lin(v, 1)
    return c, tuple(sorted(((t, k) for t, k in m.items() if k), key=str))


def _lin(v, k):
    if v[0] == "i":
        return v[1] * k, {}
    if v[0] == "app":
        if v[1] in ("Add", "Sub", "AddUnchecked", "SubUnchecked"):
            a, m = _lin(v[2][0], k)
            b, n = _lin(v[2][1], k if v[1].startswith("Add") else -k)
            for t, x in n.items():
                m[t] = m.get(t, 0) + x
            return a + b, m
        if v[1] == "Neg":
            return _lin(v[2][0], -k)
        if v[1] == "Mul" and v[2][0][0] == "i":
            return _lin(v[2][1], k * v[2][0][1])
        if v[1] == "Mul" and v[2][1][0] == "i":
            return _lin(v[2][0], k * v[2][1][1])
        if v[1].startswith("as:") and v[1][3:] in BITS and BITS[v[1][3:]] == 64:
            t = v[2][0]
            return _lin(t, k)
        if v[1].startswith("as:*"):
            return _lin(v[2][0], k)
        if v[1] in ("wrapping_add", "wrapping_offset"):
            a, m = _lin(v[2][0], k)
            b, n = _lin(v[2][1], k)
            for t, x in n.items():
                m[t] = m.get(t, 0) + x
            return a + b, m
    return 0, {v: k}


def unlin(c, m, ty):
    r = None
    for t, k in m:
        x = t if k == 1 else ("app", "Mul", (I(k, ty[1]), t), ty)
        r = x if r is None else ("app", "Add", (r, x), ty)
    if r is None:
        return I(c, ty[1])
    return r if c == 0 else ("app", "Add", (r, ("i", c, ty[1])), ty)


U64 = ("prim", "u64")


def seq_size(items):
    """number of bytes of a list of byte values and splices, as a term"""
    n, t = 0, None
    for x in items:
        if x[0] == "app" and x[1] == "splice":
            y = ("app", "len", (x[2][0],), U64)
            t = y if t is None else ("app", "Add", (t, y), U64)
        else:
            n += 1
    return I(n, "u64") if t is None else ("app", "Add", (t, I(n, "u64")), U64) if n else t


def payload(e, st, v):
    """byte values of a &[u8]-like argument"""
    x = e.through(st, v)
    if x[0] == "arr":
        return list(x[1])
    if x[0] == "b":
        return [("i", b, "u8") for b in x[1]]
    if x[0] == "s":
        return [("i", b, "u8") for b in x[1].encode()]
    return [("app", "splice", (e.snap(st, x),), ("?",))]


def put(e, st, w, bs):
    """append bytes to the writer behind reference w; None when it is not a modelled writer"""
    cell, p = e.deref(st, w)
    v = e.load(st, cell, p)
    n = 0
    while v[0] == "ref" and n < 8:
        cell, p = v[1], v[2]
        v = e.load(st, cell, p)
        n += 1
    if v[0] == "adt" and v[1] == CUR:
        buf, base, pos, patches = v[4]
        if pos != UNIT:
            patches = ("arr", patches[1] + (("tup", (pos, ("arr", tuple(bs)))),))
            pos = unlin(*lin(("app", "Add", (pos, seq_size(bs)), U64)), U64)
        else:
            buf = ("arr", buf[1] + tuple(bs))
        e.store(st, cell, p, ("adt", CUR, 0, "", (buf, base, pos, patches)))
        return True
    if v[0] == "arr":
        e.store(st, cell, p, ("arr", v[1] + tuple(bs)))
        return True
    if v[0] == "adt" and v[1].endswith("BufWriter"):
        return put(e, st, v[4][0], bs)
    if is_term(v):
        for b in bs:
            st.emit("byte", v, b)
        return True
    return None


def hooks(e, st, c):
    d = c.d
    if d in ("std::io::Write::write_all", "std::io::Write::write"):
        if c.m == "write" and c.path in e.mir.fns:
            return None
        t = c.targs[0] if c.targs else ("?",)
        bs = payload(e, st, c.args[1])
        if t[0] == "ref":
            t = t[2]
        if t[0] == "adt" and c.m == "write_all" and e.resolve("std::io::Write", "write", (t,)) is not None:
            rs = e.call_path(st, "std::io::Write::write", (t,), c.args, c.dty, c.depth + 1, tr="std::io::Write", m="write", caller=c.caller)
            return [(s, ok(UNIT)) for s, _ in rs]
        if put(e, st, c.args[0], bs):
            return [(st, ok(UNIT if c.m == "write_all" else seq_size(bs)))]
        return None
    if "WriteBytesExt::write_" in d:
        m = strip_generics(d).split("::")[-1]
        ty = m[6:]
        if ty not in BITS:
            return None
        n = BITS[ty] // 8
        v = c.args[1]
        big = any(t[0] == "adt" and "BigEndian" in t[1] for t in c.targs)
        if v[0] == "i":
            bs = [("i", b, "u8") for b in (v[1] & ((1 << (8 * n)) - 1)).to_bytes(n, "little")]
        elif n == 1:
            bs = [v]
        else:
            bs = [("app", "byte%d" % k, (e.snap(st, v),), ("prim", "u8")) for k in range(n)]
        if big:
            bs = bs[::-1]
        if put(e, st, c.args[0], bs):
            return [(st, ok(UNIT))]
        return None
    s = strip_generics(d)
    if s.endswith("Cursor::new"):
        x = e.through(st, c.args[0])
        if x == ("arr", ()):
            return [(st, cursor())]
    if s.endswith("Cursor::position"):
        v = e.through(st, c.args[0])
        if v[0] == "adt" and v[1] == CUR:
            buf, base, pos, _ = v[4]
            if pos != UNIT:
                return [(st, pos)]
            return [(st, unlin(*lin(("app", "Add", (base, seq_size(buf[1])), U64)), U64))]
    if s.endswith("Cursor::set_position"):
        cell, p = e.deref(st, c.args[0])
        v = e.load(st, cell, p)
        if v[0] == "adt" and v[1] == CUR:
            e.store(st, cell, p, v[:4] + ((v[4][0], v[4][1], c.args[1], v[4][3]),))
            return [(st, UNIT)]
    if s.endswith("Cursor::into_inner") or s.endswith("Cursor::get_ref"):
        v = e.through(st, c.args[0])
        if v[0] == "adt" and v[1] == CUR:
            r = ("app", "contents", (v[4][1], v[4][0], v[4][3]), ("?",)) if v[4][1] != I(0, "u64") or v[4][3][1] else v[4][0]
            return [(st, r)]
    if d == "std::io::Seek::seek":
        cell, p = e.deref(st, c.args[0])
        v = e.load(st, cell, p)
        n = 0
        while v[0] == "ref" and n < 8:
            cell, p = v[1], v[2]
            v = e.load(st, cell, p)
            n += 1
        f = e.res(st, c.args[1])
        if f[0] == "adt" and f[3] == "Start":
            if v[0] == "adt" and v[1] == CUR:
                e.store(st, cell, p, v[:4] + ((v[4][0], v[4][1], f[4][0], v[4][3]),))
                return [(st, ok(f[4][0]))]
            if is_term(v):
                st.emit("seek", v, f[4][0])
                return [(st, ok(f[4][0]))]
        return None
    if s == "std::io::BufWriter::new":
        return [(st, ("adt", "std::io::BufWriter", 0, "", (c.args[0],)))]
    return None
