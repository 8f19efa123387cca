"""Variant-partitioned constant propagation over MIR.

An interprocedural dataflow over the extracted MIR: values are constants, aggregates of values, references, and
uninterpreted terms; control flow is partitioned by enum variant / unresolved boolean; calls into analysed code are
followed, all others become uninterpreted terms.  No value ranges or solver queries are involved.  The result of
analysing a function is the finite list of (partition, return term, ordered effect list).
"""
import re
import struct
import sys
from facts import subst, tmatch, tstr

sys.setrecursionlimit(20000)

UNIT = ("tup", ())
STD_VARIANTS = {
    "std::option::Option": [("None", 0, []), ("Some", 1, [0])],
    "std::result::Result": [("Ok", 0, [0]), ("Err", 1, [1])],
    "std::ops::ControlFlow": [("Continue", 0, [1]), ("Break", 1, [0])],
    "std::cmp::Ordering": [("Less", 255, []), ("Equal", 0, []), ("Greater", 1, [])],
    "std::borrow::Cow": [("Borrowed", 0, [0]), ("Owned", 1, [0])],
    "either::Either": [("Left", 0, [0]), ("Right", 1, [1])],
    "itertools::Either": [("Left", 0, [0]), ("Right", 1, [1])],
    "std::collections::hash_map::Entry": [("Occupied", 0, [0]), ("Vacant", 1, [0])],
}


def I(v, t="isize"):
    return ("i", v, t)


def B(v):
    return ("i", 1 if v else 0, "bool")


def some(v):
    return ("adt", "std::option::Option", 1, "Some", (v,))


NONE = ("adt", "std::option::Option", 0, "None", ())


def ok(v):
    return ("adt", "std::result::Result", 0, "Ok", (v,))


def err(v):
    return ("adt", "std::result::Result", 1, "Err", (v,))


def is_term(v):
    return v[0] in ("sym", "app")


def show(v, d=0):
    """Readable rendering of a value/term."""
    if d > 12:
        return "…"
    k = v[0]
    if k == "i":
        return str(v[1])
    if k == "s":
        return repr(v[1])
    if k == "b":
        return "b" + repr(list(v[1]))
    if k == "adt":
        n = v[1].split("::")[-1] + ("::" + v[3] if v[3] else "")
        return n + ("(" + ", ".join(show(x, d + 1) for x in v[4]) + ")" if v[4] else "")
    if k in ("tup", "arr"):
        return ("(%s)" if k == "tup" else "[%s]") % ", ".join(show(x, d + 1) for x in v[1])
    if k == "sym":
        return v[1]
    if k == "app":
        return "%s(%s)" % (v[1].split("::")[-1] if not v[1].startswith("<") else v[1], ", ".join(show(x, d + 1) for x in v[2]))
    if k == "ref":
        return "&%s%s" % (v[1], "".join("." + str(p[1]) for p in v[2]))
    if k == "map":
        return "{%s%s}" % ("..%s, " % show(v[1], d + 1) if v[1] is not None else "", ", ".join("%s: %s" % (show(a, d + 1), show(b, d + 1)) for a, b in v[2]))
    if k in ("clo", "fn"):
        return "fn " + v[1]
    return str(v)


class Stop(Exception):
    pass


class State:
    __slots__ = ("heap", "pc", "refine", "events", "notes")

    def __init__(self):
        self.heap, self.pc, self.refine, self.events = {}, {}, {}, ()
        self.notes = {}

    def fork(self):
        s = State()
        s.heap = dict(self.heap)
        s.pc = dict(self.pc)
        s.refine = dict(self.refine)
        s.events = self.events
        s.notes = dict(self.notes)
        return s

    def emit(self, *e):
        self.events = self.events + (e,)


BITS = {"u8": 8, "i8": 8, "u16": 16, "i16": 16, "u32": 32, "i32": 32, "u64": 64, "i64": 64, "usize": 64, "isize": 64,
        "u128": 128, "i128": 128, "bool": 1, "char": 32}


def norm(v, t):
    b = BITS.get(t)
    if b is None:
        return v
    v &= (1 << b) - 1
    if t[0] == "i" and v >> (b - 1):
        v -= 1 << b
    return v


def float_cast(v, to):
    """floating point constants are kept as their bit patterns: ("i", bits, "f32" | "f64")"""
    fmt = {"f32": ("<f", "<I"), "f64": ("<d", "<Q")}
    if v[2] in fmt:
        x = struct.unpack(fmt[v[2]][0], struct.pack(fmt[v[2]][1], v[1]))[0]
    else:
        x = v[1]
    try:
        b = struct.pack(fmt[to][0], float(x) if to == "f64" else _single(x))
    except OverflowError:
        b = struct.pack(fmt[to][0], float("inf") if x > 0 else float("-inf"))
    return ("i", struct.unpack(fmt[to][1], b)[0], to)


def _single(x):
    if isinstance(x, int) and abs(x) >= 1 << 53:
        # round once: keep 60 leading bits and make the last one sticky
        n = abs(x).bit_length() - 60
        if n > 0:
            y = abs(x) >> n
            if abs(x) & ((1 << n) - 1):
                y |= 1
            # 24-bit rounding of a 60-bit integer by hand
            k = y.bit_length() - 24
            q, rem, half = y >> k, y & ((1 << k) - 1), 1 << (k - 1)
            if rem > half or (rem == half and q & 1):
                q += 1
            return float(q << (k + n)) * (1 if x > 0 else -1)
        k = abs(x).bit_length() - 24
        y = abs(x)
        q, rem, half = y >> k, y & ((1 << k) - 1), 1 << (k - 1)
        if rem > half or (rem == half and q & 1):
            q += 1
        return float(q << k) * (1 if x > 0 else -1)
    return float(x)


class Engine:
    def __init__(self, mir, hooks=None, inline=None, max_paths=4000, max_visits=80, max_depth=60):
        self.mir = mir
        self.lost, self.site, self.operands = {}, None, ()
        self.hooks = hooks            # f(engine, st, call) -> None | [(st, value)]
        self.inline = inline or (lambda p: True)
        self.max_paths = max_paths
        self.max_visits = max_visits
        self.max_depth = max_depth
        self.uid = 0
        self.panics = []              # (state, fn, why)
        self.cuts = []                # (state, fn)
        self.opaque = {}              # unresolved callee -> count
        self.aliases = {}             # projection type -> type, for the type arguments of the analysed call
        self.drops = False            # run the destructors of workspace types
        self.analysed = set()
        self.calls = 0

    # ---- values ---------------------------------------------------------------------------------------------
    def new_cell(self, st, v):
        self.uid += 1
        c = "h%d" % self.uid
        st.heap[c] = v
        return ("ref", c, ())

    def sym(self, name, ty):
        return ("sym", name, ty)

    def child(self, v, label, ty):
        if v[0] == "sym":
            return ("sym", "%s.%s" % (v[1], label), ty)
        return ("app", "." + str(label), (v,), ty)

    def term_ty(self, v):
        k = v[0]
        if k == "sym":
            return v[2]
        if k == "app":
            return v[3]
        return None

    def variants(self, path):
        """[(name, discr, [field types as fn of targs])]"""
        a = self.mir.adts.get(path)
        if a is not None:
            return [(x["n"], x["discr"]) for x in a["variants"]]
        if path in STD_VARIANTS:
            return [(n, d) for n, d, _ in STD_VARIANTS[path]]
        return None

    def variant_fields(self, path, vi, targs):
        a = self.mir.adts.get(path)
        if a is not None:
            gm = {g[0]: targs[k] for k, g in enumerate(a["gen"]) if k < len(targs)}
            return [(f["n"], subst(self.mir.ty(a["crate"], f["t"]), gm)) for f in a["variants"][vi]["fields"]]
        if path in STD_VARIANTS:
            return [(str(k), targs[j] if j < len(targs) else ("?",)) for k, j in enumerate(STD_VARIANTS[path][vi][2])]
        return None

    def expand(self, v, vi):
        """Aggregate for the term v known to be variant vi."""
        ty = self.term_ty(v)
        if ty is None or ty[0] != "adt":
            return None
        fs = self.variant_fields(ty[1], vi, ty[2])
        if fs is None:
            return None
        vs = self.variants(ty[1])
        vn = vs[vi][0]
        a = self.mir.adts.get(ty[1])
        if a is not None and a["kind"] == "Struct":
            return ("adt", ty[1], 0, "", tuple(self.child(v, n, t) for n, t in fs))
        return ("adt", ty[1], vi, vn, tuple(self.child(v, "%s.%s" % (vn, n), t) for n, t in fs))

    def res(self, st, v):
        """Resolve a term by the partition's refinements."""
        if v[0] in ("sym", "app") and v in st.refine:
            return st.refine[v]
        return v

    # ---- memory ---------------------------------------------------------------------------------------------
    def proj(self, st, v, p):
        v = self.res(st, v)
        k = v[0]
        t = p[0]
        if t == "f":
            i = p[1]
            if k == "adt":
                if v[1] in ("$Box",):
                    return v
                if i < len(v[4]):
                    return self.res(st, v[4][i])
                return ("app", ".%s" % (p[2] or i), (v,), p[3])
            if k in ("tup", "arr"):
                return self.res(st, v[1][i]) if i < len(v[1]) else ("app", ".%d" % i, (v,), p[3])
            if k == "clo":
                return self.res(st, v[2][i])
            if k == "ref":
                return v   # Box internals
            if is_term(v):
                return self.res(st, self.child(v, p[2] or str(i), p[3]))
            return ("app", ".%s" % (p[2] or i), (v,), p[3])
        if t == "d":
            if is_term(v):
                return self.child(v, p[2], self.term_ty(v))
            return v
        if t == "i":
            idx = p[1]
            if k in ("arr",) and idx[0] == "i" and 0 <= idx[1] < len(v[1]):
                return self.res(st, v[1][idx[1]])
            if k == "b" and idx[0] == "i" and 0 <= idx[1] < len(v[1]):
                return I(v[1][idx[1]], "u8")
            w = v
            while w[0] == "app" and w[1] == "upd[]":
                if w[2][1] == idx:
                    return self.res(st, w[2][2])
                w = w[2][0]
            return self.res(st, ("app", "index", (w, idx), elem_ty(self.term_ty(w))))
        if t == "mk":
            r = map_get(self, st, v, p[1])
            return r if r is not None else ("app", "mapval", (v, p[1]), ("?",))
        if t == "ci":
            off, fe = p[1], p[2]
            if k == "arr":
                j = len(v[1]) - off if fe else off
                if 0 <= j < len(v[1]):
                    return self.res(st, v[1][j])
            return ("app", "index", (v, I(-off if fe else off)), ("?",))
        if t == "ss":
            if k == "arr":
                hi = len(v[1]) - p[2] if p[3] else p[2]
                return ("arr", v[1][p[1]:hi])
            return ("app", "subslice", (v, I(p[1]), I(p[2]), I(p[3])), ("?",))
        return ("app", "proj?", (v,), ("?",))

    def load(self, st, cell, projs):
        v = st.heap.get(cell, ("un",))
        v = self.res(st, v)
        for p in projs:
            v = self.proj(st, v, p)
        return v

    def store(self, st, cell, projs, val):
        if not projs:
            st.heap[cell] = val
            return
        st.heap[cell] = self.upd(st, st.heap.get(cell, ("un",)), projs, val)

    def upd(self, st, v, projs, val):
        if not projs:
            return val
        v = self.res(st, v)
        p = projs[0]
        if p[0] == "d":
            return self.upd(st, v, projs[1:], val)
        if p[0] == "f":
            i = p[1]
            if is_term(v):
                ty = self.term_ty(v)
                e = None
                if ty and ty[0] == "adt":
                    a = self.mir.adts.get(ty[1])
                    if a is not None and a["kind"] == "Struct":
                        e = self.expand(v, 0)
                elif ty and ty[0] == "tuple":
                    e = ("tup", tuple(self.child(v, str(k), t) for k, t in enumerate(ty[1])))
                if e is None:
                    return ("app", "upd.%s" % (p[2] or i), (v, val), ty or ("?",))
                v = e
            if v[0] == "adt":
                fs = list(v[4])
                while len(fs) <= i:
                    fs.append(("un",))
                fs[i] = self.upd(st, fs[i], projs[1:], val)
                return v[:4] + (tuple(fs),) + v[5:]
            if v[0] == "tup":
                fs = list(v[1])
                while len(fs) <= i:
                    fs.append(("un",))
                fs[i] = self.upd(st, fs[i], projs[1:], val)
                return ("tup", tuple(fs))
            if v[0] == "clo":
                fs = list(v[2])
                fs[i] = self.upd(st, fs[i], projs[1:], val)
                return ("clo", v[1], tuple(fs), v[3])
            if v[0] == "un":
                fs = [("un",)] * (i + 1)
                fs[i] = self.upd(st, ("un",), projs[1:], val)
                return ("tup", tuple(fs))
        if p[0] == "i" and v[0] == "arr" and p[1][0] == "i" and 0 <= p[1][1] < len(v[1]):
            fs = list(v[1])
            fs[p[1][1]] = self.upd(st, fs[p[1][1]], projs[1:], val)
            return ("arr", tuple(fs))
        if p[0] == "i":
            old = self.proj(st, v, p)
            return ("app", "upd[]", (v, p[1], self.upd(st, old, projs[1:], val)), self.term_ty(v) or ("?",))
        if p[0] == "ci" and v[0] == "arr":
            j = len(v[1]) - p[1] if p[2] else p[1]
            if 0 <= j < len(v[1]):
                fs = list(v[1])
                fs[j] = self.upd(st, fs[j], projs[1:], val)
                return ("arr", tuple(fs))
        if p[0] == "ss" and v[0] == "arr":
            hi = len(v[1]) - p[2] if p[3] else p[2]
            part = self.upd(st, ("arr", v[1][p[1]:hi]), projs[1:], val)
            if part[0] == "arr" and len(part[1]) == len(v[1][p[1]:hi]):
                return ("arr", v[1][:p[1]] + part[1] + v[1][hi:])
        if p[0] == "mk":
            old = self.proj(st, v, p)
            return map_put(self, st, v, p[1], self.upd(st, old, projs[1:], val))
        return ("app", "upd", (v, val), self.term_ty(v) or ("?",))

    def deref(self, st, v):
        """-> (cell, projs)"""
        v = self.res(st, v)
        if v[0] == "ref":
            return v[1], v[2]
        if v[0] == "adt" and v[1] == "$Box":
            return self.deref(st, v[4][0])
        key = ("*", v)
        if key not in st.heap:
            ty = self.term_ty(v)
            inner = ("?",)
            if ty:
                if ty[0] in ("ref", "ptr"):
                    inner = ty[2]
                elif ty[0] == "adt" and ty[2]:
                    inner = ty[2][0]
            if v[0] == "sym":
                st.heap[key] = ("sym", v[1] + "*", inner)
            elif is_term(v):
                st.heap[key] = ("app", "*", (v,), inner)
            elif v[0] in ("s", "b", "arr"):
                st.heap[key] = v
            else:
                st.heap[key] = ("app", "*", (v,), inner)
        return key, ()

    def addr(self, fr, st, place):
        cell, projs = (fr.uid, place[0]), ()
        for e in place[1:]:
            if e == "*":
                cell, projs = self.deref(st, self.load(st, cell, projs))
            elif isinstance(e, list):
                if e[0] == "f":
                    projs = projs + (("f", e[1], e[2], fr.ty(e[3])),)
                elif e[0] == "i":
                    projs = projs + (("i", self.load(st, (fr.uid, e[1]), ())),)
                else:
                    projs = projs + (tuple(e),)
            else:
                projs = projs + (("?",),)
        return cell, projs

    def rd(self, fr, st, place):
        return self.load(st, *self.addr(fr, st, place))

    def through(self, st, v):
        """The value behind any number of references (and boxes)."""
        n = 0
        while n < 20:
            v = self.res(st, v)
            if v[0] == "ref":
                v = self.load(st, v[1], v[2])
            elif v[0] == "adt" and v[1] == "$Box":
                v = v[4][0]
            elif is_term(v) and ("*", v) in st.heap:
                v = st.heap[("*", v)]
            elif is_term(v) and (self.term_ty(v) or ("?",))[0] == "ref":
                v = self.load(st, *self.deref(st, v))
            else:
                break
            n += 1
        return v

    # ---- operands / rvalues ---------------------------------------------------------------------------------
    def operand(self, fr, st, o):
        if o[0] in ("c", "m"):
            return self.rd(fr, st, o[1])
        if o[0] == "k":
            return self.const(fr, st, o[1])
        return ("app", "rtcheck", (), ("prim", "bool"))

    def const(self, fr, st, c):
        k = c["k"]
        ty = fr.ty(c["t"])
        if k == "int":
            t = ty[1] if ty[0] == "prim" else "isize"
            return ("i", norm(c["v"], t), t)
        if k == "str":
            return ("s", c["v"])
        if k == "bytes":
            return ("b", tuple(c["v"]))
        if k == "fn":
            return ("fn", ty[1], ty[2])
        if k == "prom":
            f = self.mir.fns.get(c["of"])
            if f is not None and c["i"] < len(f["prom"]):
                r = self.run_body(st, f, f["prom"][c["i"]], [], fr.targs, 0)
                if len(r) == 1:
                    return r[0][1]
        if k == "other" and "path" in c and c["path"] in self.mir.fns:
            f = self.mir.fns[c["path"]]
            r = self.run_body(st, f, f, [], fr.targs, 0)
            if len(r) == 1:
                return r[0][1]
        if k == "fnptr":
            return ("fn", c["of"], ())
        if ty == ("tuple", ()):
            return UNIT
        if ty[0] == "closure":
            return ("clo", ty[1], (), ty[2])
        if ty[0] == "adt":
            a = self.mir.adts.get(ty[1])
            if a is not None:
                if a["kind"] == "Struct" and not a["variants"][0]["fields"]:
                    return ("adt", ty[1], 0, "", ())
                vn = c.get("v", "").split("::")[-1].split("(")[0].strip()
                for i, x in enumerate(a["variants"]):
                    if x["n"] == vn and not x["fields"]:
                        return ("adt", ty[1], i, vn, ())
            if ty[1] == "std::option::Option" and c.get("v", "").endswith("None"):
                return NONE
        if k == "static":
            f = self.mir.fns.get(c["of"])
            if f is not None and ty[0] == "ref":
                r = self.run_body(st, f, f, [], fr.targs, 0)
                if len(r) == 1 and concrete(self.snap(st, r[0][1])):
                    return self.new_cell(st, r[0][1])
            return ("app", "static:" + c["of"], (), ty)
        return ("app", "const:" + str(c.get("path") or c.get("v")), (), ty)

    def binop(self, op, a, b, t):
        tn = t[1] if t[0] == "prim" else "usize" if t[0] == "ptr" else None
        if tn in ("f32", "f64"):
            return ("app", op, (a, b), ("prim", "bool") if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge") else t)
        if a[0] == "i" and b[0] == "i" and tn:
            x, y = a[1], b[1]
            base = op.replace("WithOverflow", "").replace("Unchecked", "")
            r = None
            if base == "Add": r = x + y
            elif base == "Sub": r = x - y
            elif base == "Mul": r = x * y
            elif base == "BitAnd": r = x & y
            elif base == "BitOr": r = x | y
            elif base == "BitXor": r = x ^ y
            elif base == "Shl": r = x << (y & (BITS.get(tn, 64) - 1))
            elif base == "Shr": r = x >> (y & (BITS.get(tn, 64) - 1))
            elif base == "Div" and y: r = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
            elif base == "Rem" and y: r = x - abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1) * y
            elif base == "Eq": return B(x == y)
            elif base == "Ne": return B(x != y)
            elif base == "Lt": return B(x < y)
            elif base == "Le": return B(x <= y)
            elif base == "Gt": return B(x > y)
            elif base == "Ge": return B(x >= y)
            if r is not None:
                n = norm(r, tn)
                if "WithOverflow" in op:
                    return ("tup", (("i", n, tn), B(n != r)))
                return ("i", n, tn)
        if op in ("Eq", "Ne") and a == b and (is_term(a) or a[0] in ("adt", "s")):
            return B(op == "Eq")
        if op.endswith("WithOverflow"):
            return ("tup", (("app", op[:-12], (a, b), t), ("app", "overflow", (a, b), ("prim", "bool"))))
        if op == "BitAnd" and t == ("prim", "bool"):
            if a[0] == "i": return b if a[1] else B(False)
            if b[0] == "i": return a if b[1] else B(False)
        if op == "BitOr" and t == ("prim", "bool"):
            if a[0] == "i": return B(True) if a[1] else b
            if b[0] == "i": return B(True) if b[1] else a
        rt = ("prim", "bool") if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge") else t
        return ("app", op, (a, b), rt)

    def rvalue(self, fr, st, r):
        k = r[0]
        if k == "use":
            return self.operand(fr, st, r[1])
        if k == "ref" or k == "raw":
            c, p = self.addr(fr, st, r[2])
            return ("ref", c, p)
        if k == "agg":
            vs = tuple(self.operand(fr, st, o) for o in r[2])
            a = r[1]
            if a[0] == "adt":
                return ("adt", a[1], a[2], a[3], vs)
            if a[0] == "tuple":
                return ("tup", vs)
            if a[0] == "array":
                return ("arr", vs)
            if a[0] == "closure":
                return ("clo", a[1], vs, tuple(fr.arg(x) for x in a[2]))
            return ("app", "agg", vs, ("?",))
        if k == "bin":
            return self.binop(r[1], self.operand(fr, st, r[2]), self.operand(fr, st, r[3]), fr.ty(r[4]))
        if k == "un":
            a = self.operand(fr, st, r[2])
            t = fr.ty(r[3])
            tn = t[1] if t[0] == "prim" else None
            if a[0] == "i" and tn and tn[0] != "f":
                if r[1] == "Not":
                    return B(not a[1]) if tn == "bool" else ("i", norm(~a[1], tn), tn)
                if r[1] == "Neg":
                    return ("i", norm(-a[1], tn), tn)
            if r[1] == "PtrMetadata":
                v = self.through(st, a)
                if v[0] in ("arr", "b"):
                    return I(len(v[1]), "usize")
                return ("app", "len", (v,), ("prim", "usize"))
            if r[1] == "Not" and a[0] == "app" and a[1] == "Not":
                return a[2][0]
            return ("app", r[1], (a,), t)
        if k == "discr":
            v = self.rd(fr, st, r[1])
            v = self.res(st, v)
            if v[0] == "adt":
                vs = self.variants(v[1])
                if vs is not None and v[2] < len(vs) and vs[v[2]][1] is not None:
                    return I(vs[v[2]][1])
                return I(v[2])
            return ("app", "discr", (v,), ("prim", "isize"))
        if k == "cast":
            v = self.operand(fr, st, r[2])
            to = fr.ty(r[3])
            if v[0] == "i" and to[0] == "prim" and "Float" not in r[1]:
                return ("i", norm(v[1], to[1]), to[1])
            if v[0] == "i" and to[0] == "ptr":
                return v
            if v[0] == "i" and to[0] == "prim" and r[1].split("(")[0] in ("IntToFloat", "FloatToFloat"):
                return float_cast(v, to[1])
            if v[0] == "i" and v[2] in ("f32", "f64") and to[0] == "prim" and r[1].startswith("FloatToInt") and to[1] in BITS:
                f = struct.unpack("<f" if v[2] == "f32" else "<d", struct.pack("<I" if v[2] == "f32" else "<Q", v[1]))[0]
                n = BITS[to[1]]
                lo, hi = (-(1 << n - 1), (1 << n - 1) - 1) if to[1][0] == "i" else (0, (1 << n) - 1)
                return ("i", 0 if f != f else lo if f < lo else hi if f > hi else int(f), to[1])
            if v[0] == "adt" and r[1].startswith("IntToInt"):
                vs = self.variants(v[1])
                return ("i", norm(vs[v[2]][1], to[1]), to[1])
            if "ReifyFnPointer" in r[1] or "ClosureFnPointer" in r[1] or "Unsize" in r[1] or "PtrToPtr" in r[1] or "Transmute" in r[1] or "MutToConst" in r[1]:
                if v[0] in ("ref", "fn", "clo", "adt", "s", "b"):
                    return v
                if is_term(v) and "Unsize" in r[1]:
                    return v
            return ("app", "as:" + tstr(to), (v,), to)
        if k == "rep":
            v = self.operand(fr, st, r[1])
            try:
                n = int(r[2].split("_")[0])
                if n <= 64:
                    return ("arr", (v,) * n)
            except ValueError:
                pass
            return ("app", "repeat", (v,), ("?",))
        return ("app", "rvalue?", (), ("?",))

    # ---- execution ------------------------------------------------------------------------------------------
    def call_fn(self, st, path, args, targs=(), depth=0):
        f = self.mir.fns[path]
        return self.run_body(st, f, f, args, targs_map(f, targs), depth)

    def run_body(self, st, f, body, args, targs, depth):
        self.uid += 1
        fr = Frame(self, f, body, self.uid, targs)
        self.analysed.add(f["name"])
        for i, a in enumerate(args):
            st.heap[(fr.uid, i + 1)] = a
        out = []
        work = [(st, 0, {})]
        while work:
            st, bb, vis = work.pop()
            n = vis.get(bb, 0) + 1
            if n > self.max_visits + (0 if len(work) else 0):
                self.cuts.append((st, f["name"]))
                continue
            vis = dict(vis)
            vis[bb] = n
            blk = body["blocks"][bb]
            for s in blk["s"]:
                if s[0] == "=":
                    v = self.rvalue(fr, st, s[2])
                    c, p = self.addr(fr, st, s[1])
                    self.store(st, c, p, v)
                elif s[0] == "sd":
                    c, p = self.addr(fr, st, s[1])
                    v = self.load(st, c, p)
                    if v[0] == "adt":
                        vs = self.variants(v[1])
                        self.store(st, c, p, v[:2] + (s[2], vs[s[2]][0] if vs else "") + v[4:])
            t = blk["t"]
            k = t[0]
            if k == "goto":
                work.append((st, t[1], vis))
            elif k == "ret":
                out.append((st, st.heap.get((fr.uid, 0), UNIT)))
                if len(out) > self.max_paths:
                    raise Stop("too many partitions in %s" % f["name"])
            elif k == "sw":
                for s2, tgt in self.switch(fr, st, t):
                    work.append((s2, tgt, vis))
                if len(work) > self.max_paths:
                    raise Stop("too many partitions in %s" % f["name"])
            elif k == "drop":
                if self.drops:
                    c, p = self.addr(fr, st, t[1])
                    for s2 in self.drop_value(st, c, p, depth):
                        work.append((s2, t[2], vis))
                else:
                    work.append((st, t[2], vis))
            elif k == "assert":
                work.append((st, t[4], vis))
            elif k == "call":
                vals = [self.operand(fr, st, o) for o in t[2]]
                self.operands = t[2]
                dest = t[3]
                dty = fr.ty(body["locals"][dest[0]][0]) if len(dest) == 1 else ("?",)
                try:
                    rs = self.call(fr, st, t[1], vals, dty, depth, t[6], t[4] is None)
                except Panic as e:
                    self.panics.append((st, f["name"], str(e)))
                    continue
                if t[4] is None:
                    for s2, _ in rs:
                        self.panics.append((s2, f["name"], "diverge"))
                    continue
                for s2, v in rs:
                    c, p = self.addr(fr, s2, dest)
                    self.store(s2, c, p, v)
                    work.append((s2, t[4], vis))
            elif k == "unr":
                pass
            elif k in ("resume", "abort"):
                pass
            else:
                self.opaque["terminator " + k] = self.opaque.get("terminator " + k, 0) + 1
        return out

    def has_drop(self, v):
        k = v[0]
        if k == "adt":
            return self.resolve("std::ops::Drop", "drop", (("adt", v[1], ()),)) is not None or any(self.has_drop(x) for x in v[4])
        if k in ("tup", "arr"):
            return any(self.has_drop(x) for x in v[1])
        if k == "map":
            return any(self.has_drop(x) for _, x in v[2])
        return False

    def drop_value(self, st, cell, projs, depth):
        """destructors of the workspace's own types: the value's own, then its fields'"""
        v = self.load(st, cell, projs)
        if not self.has_drop(v):
            return [st]
        sts = [st]
        if v[0] == "adt":
            t = ("adt", v[1], ())
            if self.resolve("std::ops::Drop", "drop", (t,)) is not None:
                sts = []
                try:
                    sts = [s for s, _ in self.call_path(st, "std::ops::Drop::drop", (t,), [("ref", cell, projs)], ("?",), depth + 1, tr="std::ops::Drop", m="drop")]
                except Panic as x:
                    self.panics.append((st, v[1], str(x)))
        sub = []
        if v[0] == "adt":
            sub = [("f", i, None, ("?",)) for i in range(len(v[4]))]
        elif v[0] == "tup":
            sub = [("f", i, None, ("?",)) for i in range(len(v[1]))]
        elif v[0] == "arr":
            sub = [("i", I(i, "usize")) for i in range(len(v[1]))]
        elif v[0] == "map":
            sub = [("mk", k) for k, _ in v[2]]
        for p in sub:
            sts = [s2 for s in sts for s2 in self.drop_value(s, cell, projs + (p,), depth)]
        return sts

    def switch(self, fr, st, t):
        v = self.operand(fr, st, t[1])
        targets, other = t[2], t[3]
        if v[0] == "i":
            for val, bb in targets:
                if val == v[1] or val == (v[1] & ((1 << 128) - 1)) or (v[1] < 0 and (val & 0xFF == v[1] & 0xFF) and v[2] in ("i8",)) or (v[1] < 0 and val == v[1] & 0xFFFFFFFFFFFFFFFF):
                    return [(st, bb)]
            return [(st, other)]
        if v[0] == "app" and v[1] == "discr":
            base = v[2][0]
            ty = self.term_ty(base)
            if ty and ty[0] == "adt":
                vs = self.variants(ty[1])
                if vs is not None:
                    r = []
                    tm = {}
                    for val, bb in targets:
                        tm[val if val < (1 << 127) else val - (1 << 128)] = bb
                    for vi, (vn, d) in enumerate(vs):
                        key = d if d is not None else vi
                        bb = tm.get(key, tm.get(key & 0xFF if key < 0 else key, tm.get(key & 0xFFFFFFFFFFFFFFFF, other)))
                        if bb is None:
                            continue
                        e = self.expand(base, vi)
                        if e is None:
                            continue
                        ex = st.pc.get(("not", base))
                        s2 = st.fork()
                        s2.refine[base] = e
                        r.append((s2, bb))
                    return r
        # generic term
        neg = False
        term = v
        while term[0] == "app" and term[1] == "Not" and t[4] is not None and fr.ty(t[4]) == ("prim", "bool"):
            neg = not neg
            term = term[2][0]
        isb = fr.ty(t[4]) == ("prim", "bool")
        if isb and term[0] == "app" and term[1] == "Ne":
            neg = not neg
            term = ("app", "Eq", term[2], term[3])
        known = st.pc.get(term)
        if known is not None and known[0] == "=":
            val0 = known[1]
            if isb and neg:
                val0 = 1 - val0
            for val, bb in targets:
                if val == val0:
                    return [(st, bb)]
            return [(st, other)]
        excl = known[1] if known is not None else frozenset()
        r = []
        vals = set()
        for val, bb in targets:
            vals.add(val)
            u = 1 - val if (isb and neg) else val
            if u in excl:
                continue
            s2 = st.fork()
            s2.pc[term] = ("=", u)
            r.append((s2, bb))
        if other is not None and fr.body["blocks"][other]["t"][0] != "unr":
            s2 = st.fork()
            if isb and len(vals) == 1:
                val = 1 - next(iter(vals))
                u = 1 - val if neg else val
                s2.pc[term] = ("=", u)
            else:
                s2.pc[term] = ("!", excl | frozenset(vals))
            r.append((s2, other))
        return r

    # ---- calls ----------------------------------------------------------------------------------------------
    def resolve(self, tr, m, targs):
        """Resolve trait method on substituted args (self first) through the workspace's impls."""
        for im in self.mir.impl_by_trait.get(tr, ()):
            pat = im["trargs"]
            b = {}
            if len(pat) <= len(targs) and all(tmatch(p, t, b) for p, t in zip(pat, targs)):
                for it in im["items"]:
                    if it["n"] == m:
                        return it["p"], im, b
        t = self.mir.traits.get(tr)
        if t is not None:
            for it in t["items"]:
                if it["n"] == m and it["p"] in self.mir.fns:
                    return it["p"], None, {}
        return None

    def call(self, fr, st, c, vals, dty, depth, line, diverges=False):
        self.calls += 1
        if "dyn" in c:
            f = self.operand(fr, st, c["dyn"])
            return self.call_value(st, f, vals, dty, depth)
        targs = tuple(fr.arg(x) for x in c["a"])
        self.site = (fr, self.operands)
        return self.call_path(st, c["d"], targs, vals, dty, depth, tr=c.get("tr"), m=c.get("m"),
                              r=c.get("r"), ra=tuple(fr.arg(x) for x in c["ra"]) if "ra" in c else None,
                              ext=c.get("ext"), line=line, caller=fr.f["name"], diverges=diverges)

    def call_path(self, st, d, targs, vals, dty, depth, tr=None, m=None, r=None, ra=None, ext=None, line=0, caller="",
                  diverges=False):
        path, ptargs = d, targs
        tm = None
        site, self.site = self.site, None
        if self.aliases and any(t[0] == "alias" for t in targs):
            targs = tuple(self.aliases.get(t[1], t) if t[0] == "alias" else t for t in targs)
        if tr and vals and any(t[0] == "alias" for t in targs[:2]):
            # a projection type is known by the value that has it
            i = 1 if tr == "std::convert::From" else 0
            if i < len(targs) and targs[i][0] == "alias":
                t = self.value_ty(st, self.through(st, vals[0]))
                if t is not None:
                    targs = targs[:i] + (t,) + targs[i + 1:]
        if tr:
            x = self.resolve(tr, m, targs)
            if x is not None:
                path, im, b = x
                f = self.mir.fns.get(path)
                if f is not None and im is not None:
                    tm = {g[0]: b[g[0]] for g in im["gen"] if g[0] in b}
                    # method-level generics follow the impl's in index order
                    ntr = len(im["trargs"])
                    own = [g for g in f["gen"] if g[0] not in {x[0] for x in im["gen"]}]
                    for g, t in zip(own, targs[ntr:]):
                        tm[g[0]] = t
                elif f is not None:
                    tm = targs_map(f, targs)
            elif r:
                path, ptargs = r, ra
        elif r:
            path, ptargs = r, ra
        vals = list(vals)
        call = Call(d, path, targs, tr, m, vals, dty, ext, line, caller, depth, diverges)
        if self.hooks is not None:
            h = self.hooks(self, st, call)
            if h is not None:
                return h
        if diverges and path not in self.mir.fns:
            return [(st, ("app", d, tuple(vals), dty))]
        if path not in self.mir.fns:
            # closures that own mutable state keep it across the calls a library function makes
            for i, v in enumerate(vals):
                if v[0] == "clo" and v[2] and self.stateful(v):
                    vals[i] = self.new_cell(st, v)
        h = model(self, st, call)
        if h is not None:
            return h
        f = self.mir.fns.get(path)
        if f is not None and self.inline(path) and depth < self.max_depth:
            if tm is None:
                tm = targs_map(f, ptargs or ())
            return self.run_body(st, f, f, vals, tm, depth + 1)
        self.opaque[path] = self.opaque.get(path, 0) + 1
        if self.loses(site, vals):
            self.lost[path] = self.lost.get(path, 0) + 1
        return [(st, ("app", path, tuple(self.snap(st, v) for v in vals), dty))]

    def loses(self, site, vals):
        """a call that is not followed and that may change what is known: it has a closure, or what it may write to"""
        if any(v[0] == "clo" for v in vals):
            return True
        if site is None:
            return any(v[0] == "ref" for v in vals)
        fr, ops = site
        if len(ops) != len(vals):
            return any(v[0] == "ref" for v in vals)
        for o, v in zip(ops, vals):
            if v[0] == "ref" and o[0] in ("c", "m"):
                t = fr.ty(fr.body["locals"][o[1][0]][0]) if len(o[1]) == 1 else None
                if t is None or t[0] in ("ref", "ptr") and t[1]:
                    return True
        return False

    def snap(self, st, v):
        """Value with references to already-known contents followed (for use inside terms)."""
        v = self.res(st, v)
        if v[0] == "ref":
            x = self.load(st, v[1], v[2])
            if x[0] == "un":
                return v
            return self.snap(st, x)
        if v[0] == "adt":
            return v[:4] + (tuple(self.snap(st, x) for x in v[4]),)
        if v[0] in ("tup", "arr"):
            return (v[0], tuple(self.snap(st, x) for x in v[1]))
        if v[0] == "map":
            return ("map", v[1], tuple((self.snap(st, a), self.snap(st, b)) for a, b in v[2]))
        return v

    def value_ty(self, st, v):
        v = self.res(st, v)
        if v[0] == "i":
            return ("prim", v[2])
        if v == UNIT:
            return ("tuple", ())
        if v[0] == "ref":
            return None
        if v[0] == "adt":
            a = self.mir.adts.get(v[1])
            if a is None or v[2] >= len(a["variants"]):
                return None
            b = {}
            for f, x in zip(a["variants"][v[2]]["fields"], v[4]):
                t = self.value_ty(st, x)
                if t is not None:
                    tmatch(self.mir.ty(a["crate"], f["t"]), t, b)
            gs = tuple(b.get(g[0]) for g in a["gen"])
            return None if None in gs else ("adt", v[1], gs)
        return self.term_ty(v)

    def stateful(self, f):
        fn = self.mir.fns.get(f[1])
        if fn is None:
            return False
        t = self.mir.ty(fn["crate"], fn["locals"][1][0])
        return t[0] == "ref" and bool(t[1])

    def closure_ref(self, st, v):
        """the innermost reference leading to a closure"""
        last = None
        for _ in range(20):
            v = self.res(st, v)
            if v[0] != "ref":
                break
            last = v
            v = self.load(st, v[1], v[2])
        return last if v[0] == "clo" else None

    def call_value(self, st, f, vals, dty=("?",), depth=0):
        f0 = f
        f = self.through(st, f)
        if f[0] == "fn":
            fn = self.mir.fns.get(f[1])
            # constructor functions
            c = ctor(self.mir, f[1], vals)
            if c is not None:
                return [(st, c)]
            tr = None
            m = f[1].split("::")[-1]
            tp = f[1].rsplit("::", 1)[0]
            if tp in self.mir.traits or tp.startswith("std::") and f[2] and fn is None:
                tr = tp
            return self.call_path(st, f[1], f[2], vals, dty, depth + 1, tr=tr, m=m)
        if f[0] == "clo":
            fn = self.mir.fns.get(f[1])
            if fn is not None:
                selfty = self.mir.ty(fn["crate"], fn["locals"][1][0])
                me = f
                if selfty[0] == "ref":
                    me = (self.closure_ref(st, f0) if selfty[1] else None) or self.new_cell(st, f)
                return self.run_body(st, fn, fn, [me] + list(vals), targs_map(fn, f[3]), depth + 1)
        return [(st, ("app", "call", (f,) + tuple(self.snap(st, v) for v in vals), dty))]


class Panic(Exception):
    pass


class Call:
    __slots__ = ("d", "path", "targs", "tr", "m", "args", "dty", "ext", "line", "caller", "depth", "diverges")

    def __init__(self, *a):
        for n, v in zip(self.__slots__, a):
            setattr(self, n, v)


def targs_map(f, targs):
    return {g[0]: t for g, t in zip(f["gen"], targs)}


def ctor(mir, path, vals):
    """`Enum::Variant` / tuple-struct constructor used as a function."""
    base, _, vn = path.rpartition("::")
    for p in (base, base.split("::<")[0]):
        a = mir.adts.get(p)
        if a is not None and a["kind"] == "Enum":
            for i, x in enumerate(a["variants"]):
                if x["n"] == vn:
                    return ("adt", p, i, vn, tuple(vals))
    a = mir.adts.get(path)
    if a is not None and a["kind"] == "Struct":
        return ("adt", path, 0, "", tuple(vals))
    if path.endswith("Option::Some") or path.endswith("Option::<T>::Some"):
        return some(vals[0])
    if path.endswith("Result::Ok"):
        return ok(vals[0])
    if path.endswith("Result::Err"):
        return err(vals[0])
    return None


class Frame:
    __slots__ = ("e", "f", "body", "uid", "targs")

    def __init__(self, e, f, body, uid, targs):
        self.e, self.f, self.body, self.uid, self.targs = e, f, body, uid, targs

    def ty(self, i):
        return subst(self.e.mir.ty(self.f["crate"], i), self.targs)

    def arg(self, i):
        return subst(self.e.mir.ty(self.f["crate"], i), self.targs)


# ---- models of std ------------------------------------------------------------------------------------------
MODELS = {}


def mdl(*names):
    def w(f):
        for n in names:
            MODELS[n] = f
        return f
    return w


def model(e, st, c):
    f = MODELS.get(c.d)
    if f is None:
        # strip generics of inherent methods: std::option::Option::<T>::map
        d = c.d
        if "::<" in d:
            d = strip_generics(d)
            f = MODELS.get(d)
    if f is None:
        return None
    return f(e, st, c)


def strip_generics(d):
    out = []
    depth = 0
    i = 0
    while i < len(d):
        if d.startswith("::<", i) and depth == 0:
            depth = 1
            i += 3
            continue
        ch = d[i]
        if depth:
            if ch == "<":
                depth += 1
            elif ch == ">" and d[i - 1] != "-":
                depth -= 1
            i += 1
            continue
        out.append(ch)
        i += 1
    return "".join(out)


def split_variant(e, st, v):
    """[(state, aggregate)] of a possibly symbolic enum value."""
    v = e.res(st, v)
    if v[0] == "adt":
        return [(st, v)]
    ty = e.term_ty(v)
    if ty and ty[0] == "adt":
        vs = e.variants(ty[1])
        if vs is not None:
            r = []
            for vi in range(len(vs)):
                x = e.expand(v, vi)
                if x is None:
                    return None
                s2 = st.fork()
                s2.refine[v] = x
                r.append((s2, x))
            return r
    return None


@mdl("std::ops::Try::branch")
def m_branch(e, st, c):
    r = split_variant(e, st, c.args[0])
    if r is None:
        return None
    out = []
    for s, v in r:
        if v[3] in ("Ok", "Some", "Continue"):
            out.append((s, ("adt", "std::ops::ControlFlow", 0, "Continue", v[4] or (UNIT,))))
        elif v[3] == "Err":
            out.append((s, ("adt", "std::ops::ControlFlow", 1, "Break", (err(v[4][0]),))))
        else:
            out.append((s, ("adt", "std::ops::ControlFlow", 1, "Break", (NONE,))))
    return out


@mdl("std::ops::FromResidual::from_residual")
def m_resid(e, st, c):
    v = e.res(st, c.args[0])
    if v[0] == "adt" and v[3] == "Err":
        return [(st, err(("app", "From::from", (v[4][0],), ("?",)) if is_term(v[4][0]) else v[4][0]))]
    return [(st, v)]


@mdl("std::ops::Try::from_output")
def m_from_output(e, st, c):
    return [(st, ok(c.args[0]))]


@mdl("std::clone::Clone::clone", "std::borrow::ToOwned::to_owned")
def m_clone(e, st, c):
    v = c.args[0]
    if v[0] == "ref":
        x = e.load(st, v[1], v[2])
        return [(st, x)]
    if is_term(v):
        return [(st, e.load(st, *e.deref(st, v)))]
    return [(st, v)]


@mdl("std::convert::Into::into", "std::convert::From::from")
def m_into(e, st, c):
    # identity conversions, and conversions through workspace From impls
    if c.m == "into":
        a, b = c.targs[0], c.targs[1]
    else:
        b, a = c.targs[0], c.targs[1]
    if a == b:
        return [(st, c.args[0])]
    if c.m == "into":
        return e.call_path(st, "std::convert::From::from", (b, a), c.args, c.dty, c.depth, tr="std::convert::From", m="from", caller=c.caller)
    if c.path in e.mir.fns:
        return None
    if b[0] == "prim" and a[0] == "prim":
        v = c.args[0]
        if v[0] == "i" and ("f32" in (a[1], b[1]) or "f64" in (a[1], b[1])):
            return [(st, float_cast(v, b[1]))]
        if v[0] == "i":
            return [(st, ("i", norm(v[1], b[1]), b[1]))]
        return [(st, ("app", "as:" + b[1], (v,), b))]
    if b[0] == "adt" and b[1] == "ordered_float::OrderedFloat" and b[2] == (a,):
        return [(st, ("adt", b[1], 0, "", (c.args[0],)))]
    if b[0] == "adt" and b[1] in ("std::string::String", "std::rc::Rc", "std::sync::Arc", "std::boxed::Box", "std::vec::Vec", "std::collections::VecDeque"):
        return [(st, c.args[0])]
    return None


@mdl("std::ops::Deref::deref", "std::ops::DerefMut::deref_mut", "std::convert::AsRef::as_ref", "std::borrow::Borrow::borrow",
     "std::convert::AsMut::as_mut")
def m_deref(e, st, c):
    if c.path in e.mir.fns:
        return None
    v = c.args[0]
    cell, p = e.deref(st, v)
    x = e.load(st, cell, p)
    if x[0] == "ref":
        return [(st, x)]
    if x[0] == "adt" and x[1] == "std::borrow::Cow":
        return [(st, x[4][0] if x[3] == "Borrowed" else ("ref", cell, p + (("d", x[2], x[3]), ("f", 0, "0", ("?",)))))]
    if x[0] in ("arr", "s", "b", "app", "sym", "adt", "tup"):
        t = e.term_ty(x)
        if t and t[0] == "adt" and t[1] in ("std::boxed::Box", "std::rc::Rc", "std::sync::Arc"):
            return [(st, ("ref",) + e.deref(st, x))]
        return [(st, ("ref", cell, p))]
    return None


@mdl("std::borrow::Cow::into_owned")
def m_into_owned(e, st, c):
    x = e.res(st, c.args[0])
    if x[0] != "adt" or x[1] != "std::borrow::Cow":
        return None
    return [(st, e.load(st, *e.deref(st, x[4][0])) if x[3] == "Borrowed" else x[4][0])]


@mdl("std::boxed::Box::new", "std::rc::Rc::new", "std::sync::Arc::new", "std::cell::RefCell::new", "std::boxed::box_new")
def m_box(e, st, c):
    return [(st, e.new_cell(st, c.args[0]))]


@mdl("std::convert::identity", "std::hint::black_box", "std::mem::ManuallyDrop::new")
def m_id(e, st, c):
    return [(st, c.args[0])]


@mdl("std::mem::drop", "core::mem::drop")
def m_drop(e, st, c):
    if e.drops:
        r = e.new_cell(st, c.args[0])
        return [(s, UNIT) for s in e.drop_value(st, r[1], r[2], c.depth)]
    return [(st, UNIT)]


@mdl("std::mem::take")
def m_take(e, st, c):
    cell, p = e.deref(st, c.args[0])
    v = e.load(st, cell, p)
    t = e.term_ty(v) or ("?",)
    nv = ("arr", ()) if v[0] == "arr" else ("app", "default", (), t)
    e.store(st, cell, p, nv)
    return [(st, v)]


@mdl("std::mem::replace")
def m_replace(e, st, c):
    cell, p = e.deref(st, c.args[0])
    v = e.load(st, cell, p)
    e.store(st, cell, p, c.args[1])
    return [(st, v)]


@mdl("std::mem::swap")
def m_swap(e, st, c):
    a = e.deref(st, c.args[0])
    b = e.deref(st, c.args[1])
    x, y = e.load(st, *a), e.load(st, *b)
    e.store(st, a[0], a[1], y)
    e.store(st, b[0], b[1], x)
    return [(st, UNIT)]


def concrete(v):
    k = v[0]
    if k in ("i", "s", "b"):
        return True
    if k == "adt":
        return all(concrete(x) for x in v[4])
    if k in ("tup", "arr"):
        return all(concrete(x) for x in v[1])
    return False


@mdl("std::cmp::PartialEq::eq", "std::cmp::PartialEq::ne")
def m_eq(e, st, c):
    a, b = e.snap(st, e.through(st, c.args[0])), e.snap(st, e.through(st, c.args[1]))
    t = None
    if concrete(a) and concrete(b):
        t = B(a == b)
    elif a == b:
        t = B(True)
    elif a[0] == "adt" and b[0] == "adt" and a[1] == b[1] and a[2] != b[2]:
        t = B(False)
    if t is None:
        # compare a symbolic enum with a fieldless variant: partition
        for x, y in ((a, b), (b, a)):
            if is_term(x) and y[0] == "adt" and not y[4]:
                r = split_variant(e, st, x)
                if r is not None and len(r) > 1:
                    return [(s, B((v[2] == y[2]) == (c.m == "eq"))) for s, v in r]
        t = ("app", "Eq", (a, b), ("prim", "bool"))
        if c.m == "ne":
            t = ("app", "Not", (t,), ("prim", "bool"))
        return [(st, t)]
    if c.m == "ne":
        t = B(not t[1])
    return [(st, t)]


# ---- Option / Result ----------------------------------------------------------------------------------------
def opt_like(names, f):
    for n in names:
        MODELS[n] = f


def fmap(variant, wrap):
    def f(e, st, c):
        r = split_variant(e, st, c.args[0])
        if r is None:
            return None
        out = []
        for s, v in r:
            if v[3] == variant:
                for s2, x in e.call_value(s, c.args[1], [v[4][0]], depth=c.depth):
                    out.append((s2, wrap(x)))
            else:
                out.append((s, v))
        return out
    return f


MODELS["std::option::Option::map"] = fmap("Some", some)
MODELS["std::option::Option::and_then"] = fmap("Some", lambda x: x)
MODELS["std::result::Result::map"] = fmap("Ok", ok)
MODELS["std::result::Result::and_then"] = fmap("Ok", lambda x: x)
MODELS["std::result::Result::map_err"] = fmap("Err", err)


@mdl("std::option::Option::unwrap", "std::option::Option::expect", "std::result::Result::unwrap", "std::result::Result::expect")
def m_unwrap(e, st, c):
    r = split_variant(e, st, c.args[0])
    if r is None:
        return None
    out = []
    for s, v in r:
        if v[3] in ("Some", "Ok"):
            out.append((s, v[4][0]))
        else:
            e.panics.append((s, c.caller, "unwrap"))
    return out


@mdl("std::option::Option::unwrap_or", "std::result::Result::unwrap_or")
def m_unwrap_or(e, st, c):
    r = split_variant(e, st, c.args[0])
    if r is None:
        return None
    return [(s, v[4][0] if v[3] in ("Some", "Ok") else c.args[1]) for s, v in r]


@mdl("std::option::Option::map_or")
def m_map_or(e, st, c):
    r = split_variant(e, st, c.args[0])
    if r is None:
        return None
    out = []
    for s, v in r:
        if v[3] == "Some":
            out += e.call_value(s, c.args[2], [v[4][0]], depth=c.depth)
        else:
            out.append((s, c.args[1]))
    return out


@mdl("std::option::Option::unwrap_or_else", "std::option::Option::or_else", "std::option::Option::ok_or_else")
def m_or_else(e, st, c):
    r = split_variant(e, st, c.args[0])
    if r is None:
        return None
    out = []
    for s, v in r:
        kind = strip_generics(c.d).split("::")[-1]
        if v[3] == "Some":
            out.append((s, v[4][0] if kind == "unwrap_or_else" else v if kind == "or_else" else ok(v[4][0])))
        else:
            for s2, x in e.call_value(s, c.args[1], [], depth=c.depth):
                out.append((s2, err(x) if kind == "ok_or_else" else x))
    return out


@mdl("std::option::Option::is_some", "std::option::Option::is_none", "std::result::Result::is_ok", "std::result::Result::is_err")
def m_is(e, st, c):
    r = split_variant(e, st, e.through(st, c.args[0]))
    if r is None:
        return None
    n = strip_generics(c.d).split("::")[-1]
    want = {"is_some": "Some", "is_none": "None", "is_ok": "Ok", "is_err": "Err"}[n]
    return [(s, B(v[3] == want)) for s, v in r]


@mdl("std::option::Option::as_ref", "std::option::Option::as_mut", "std::option::Option::as_deref", "std::result::Result::as_ref", "either::Either::as_ref", "either::Either::as_mut",
     "itertools::Either::as_ref", "itertools::Either::as_mut")
def m_opt_ref(e, st, c):
    cell, p = e.deref(st, c.args[0])
    r = split_variant(e, st, e.load(st, cell, p))
    if r is None:
        return None
    out = []
    for s, v in r:
        if v[4]:
            out.append((s, v[:4] + ((("ref", cell, p + (("d", v[2], v[3]), ("f", 0, "0", ("?",)))),),)))
        else:
            out.append((s, v))
    return out


@mdl("std::option::Option::copied", "std::option::Option::cloned")
def m_opt_copied(e, st, c):
    r = split_variant(e, st, c.args[0])
    if r is None:
        return None
    return [(s, some(e.load(s, *e.deref(s, v[4][0]))) if v[3] == "Some" else v) for s, v in r]


@mdl("std::option::Option::take")
def m_opt_take(e, st, c):
    cell, p = e.deref(st, c.args[0])
    v = e.load(st, cell, p)
    e.store(st, cell, p, NONE)
    return [(st, v)]


@mdl("core::bool::<impl bool>::then", "std::primitive::bool::then", "core::bool::then", "bool::then")
def m_then(e, st, c):
    v = c.args[0]
    outs = []
    for s, b in split_bool(e, st, v):
        if b:
            for s2, x in e.call_value(s, c.args[1], [], depth=c.depth):
                outs.append((s2, some(x)))
        else:
            outs.append((s, NONE))
    return outs


def split_bool(e, st, v):
    if v[0] == "i":
        return [(st, bool(v[1]))]
    neg = False
    while v[0] == "app" and v[1] == "Not":
        neg = not neg
        v = v[2][0]
    k = st.pc.get(v)
    if k is not None and k[0] == "=":
        return [(st, bool(k[1]) != neg)]
    a, b = st.fork(), st.fork()
    a.pc[v] = ("=", 1)
    b.pc[v] = ("=", 0)
    return [(a, not neg), (b, neg)]


# ---- function values ----------------------------------------------------------------------------------------
@mdl("std::ops::FnOnce::call_once", "std::ops::Fn::call", "std::ops::FnMut::call_mut")
def m_call(e, st, c):
    a = c.args[1]
    if a[0] != "tup":
        return None
    return e.call_value(st, c.args[0], list(a[1]), c.dty, c.depth)


# ---- collections / iterators --------------------------------------------------------------------------------
@mdl("std::vec::Vec::new", "std::vec::Vec::with_capacity")
def m_vec_new(e, st, c):
    return [(st, ("arr", ()))]


@mdl("std::vec::Vec::push")
def m_vec_push(e, st, c):
    cell, p = e.deref(st, c.args[0])
    v = e.load(st, cell, p)
    if v[0] == "arr":
        e.store(st, cell, p, ("arr", v[1] + (c.args[1],)))
        return [(st, UNIT)]
    e.store(st, cell, p, ("app", "push", (v, e.snap(st, c.args[1])), e.term_ty(v) or ("?",)))
    return [(st, UNIT)]


@mdl("std::slice::into_vec", "<[T]>::into_vec", "std::slice::<impl [T]>::into_vec", "std::slice::<impl [T]>::to_vec", "<[T]>::to_vec",
     "alloc::slice::<impl [T]>::to_vec", "std::vec::Vec::as_slice", "std::vec::Vec::into_boxed_slice")
def m_into_vec(e, st, c):
    v = c.args[0]
    if "as_slice" in c.d:
        return [(st, v)]
    return [(st, e.through(st, v))]


def seq_len(e, st, c):
    v = e.through(st, c.args[0])
    if v[0] in ("arr", "b"):
        return [(st, I(len(v[1]), "usize"))]
    if v[0] == "s":
        return [(st, I(len(v[1].encode()), "usize"))]
    return [(st, ("app", "len", (v,), ("prim", "usize")))]


for _n in ("std::string::String::len", "std::vec::Vec::len", "core::slice::<impl [T]>::len", "std::slice::<impl [T]>::len", "core::str::<impl str>::len",
           "<[T]>::len", "str::len"):
    MODELS[_n] = seq_len


@mdl("std::vec::Vec::is_empty", "core::slice::<impl [T]>::is_empty", "<[T]>::is_empty")
def m_is_empty(e, st, c):
    v = e.through(st, c.args[0])
    if v[0] in ("arr", "b"):
        return [(st, B(len(v[1]) == 0))]
    return [(st, ("app", "is_empty", (v,), ("prim", "bool")))]


# iterator values: ("adt", "$It", 0, "", (items-as-arr, pos))  or uninterpreted sources ("$Src", base, pos, byref)
def mk_iter(items):
    return ("adt", "$It", 0, "", (("arr", tuple(items)), I(0, "usize")))


def mk_src(base, ety):
    return ("adt", "$Src", 0, "", (base, I(0, "usize"), ("ty", ety)))


def as_items(e, st, v, byref):
    """Items of a concrete sequence; references to elements when byref."""
    if v[0] == "ref":
        x = e.load(st, v[1], v[2])
        if x[0] == "ref":
            return as_items(e, st, x, True)
        if x[0] == "arr":
            return [("ref", v[1], v[2] + (("i", I(k, "usize")),)) for k in range(len(x[1]))]
        if x[0] == "b":
            return [e.new_cell(st, I(b, "u8")) for b in x[1]]
        if x[0] == "map" and x[1] is None:
            return [("tup", (e.new_cell(st, a), ("ref", v[1], v[2] + (("mk", a),)))) for a, _ in x[2]]
        if x[0] == "adt" and x[1] == "std::option::Option":
            return [("ref", v[1], v[2] + (("d", 1, "Some"), ("f", 0, "0", ("?",))))] if x[3] == "Some" else []
        return None
    if v[0] == "arr":
        return [e.new_cell(st, x) for x in v[1]] if byref else list(v[1])
    if v[0] == "map" and v[1] is None:
        return [("tup", (a, b)) for a, b in v[2]]
    if v[0] == "adt" and v[1] == "std::option::Option":
        return list(v[4])
    if v[0] == "adt" and v[1] == "$It":
        return list(v[4][0][1][v[4][1][1]:])
    if v[0] == "adt" and v[1] == "std::ops::Range" and v[4][0][0] == "i" and v[4][1][0] == "i":
        return [("i", k, v[4][0][2]) for k in range(v[4][0][1], v[4][1][1])] if v[4][1][1] - v[4][0][1] <= 256 else None
    if v[0] == "adt" and v[1] == "std::ops::RangeInclusive" and v[4][0][0] == "i" and v[4][1][0] == "i":
        return [("i", k, v[4][0][2]) for k in range(v[4][0][1], v[4][1][1] + 1)] if v[4][1][1] - v[4][0][1] < 256 else None
    return None


def key_order(v):
    """sort key of a concrete value under the derived order"""
    if v[0] == "i":
        return (0, v[1])
    if v[0] in ("s", "b"):
        return (0, v[1])
    if v[0] == "adt":
        return (v[2], tuple(key_order(x) for x in v[4]))
    if v[0] in ("tup", "arr"):
        return (0, tuple(key_order(x) for x in v[1]))
    raise TypeError("no order on %s" % v[0])


def collection_items(e, st, v, byref, c):
    """as_items, with the order and the item type of the collection's static type"""
    it = as_items(e, st, v, byref)
    if it is None or e.through(st, v)[0] != "map":
        return it
    t = c.path
    if "Map" not in t and "Set" not in t:
        t = repr(c.targs[:1])
    t = t[:t.find(">::")] if ">::" in t else t
    keys = [e.snap(st, a) for a, _ in e.through(st, v)[2]]
    if "BTree" in t:
        try:
            order = sorted(range(len(keys)), key=lambda i: key_order(keys[i]))
        except TypeError:
            order = range(len(keys))
        it = [it[i] for i in order]
    if re.search(r"(Hash|BTree)Set\b", t) and not re.search(r"(Hash|BTree)Map\b", t.split("Set")[0]):
        it = [x[1][0] for x in it]
        a = c.targs[0] if c.targs else ("?",)
        while a[0] == "ref":
            a = a[2]
        if a[0] == "adt" and a[1].endswith("Set") and a[2]:
            a = a[2][0]
            while not c.tr and a[0] == "adt" and a[1].endswith("Set") and a[2]:
                a = a[2][0]
            if a[0] == "ref":
                # the set has references, of which only what they refer to is kept
                it = [e.new_cell(st, x) for x in it]
        elif a[0] != "?" and c.targs[0][0] == "ref" and not c.tr:
            it = [e.new_cell(st, x) for x in it]
    return it


def elem_ty(t):
    if t is None:
        return ("?",)
    if t[0] in ("ref", "ptr"):
        return ("ref", t[1], elem_ty(t[2]))
    if t[0] in ("slice", "array"):
        return t[1]
    if t[0] == "adt" and t[2]:
        return t[2][0]
    return ("?",)


@mdl("std::iter::IntoIterator::into_iter", "core::slice::<impl [T]>::iter", "core::slice::<impl [T]>::iter_mut", "<[T]>::iter", "<[T]>::iter_mut",
     "std::option::Option::iter", "std::option::Option::iter_mut", "std::vec::Vec::drain")
def m_into_iter(e, st, c):
    if c.path in e.mir.fns and c.tr:
        return None
    v = e.res(st, c.args[0])
    if v[0] == "adt" and v[1] in ("$It", "$Src", "$Map"):
        return [(st, v)]
    if is_term(v) and (e.term_ty(v) or ("?",))[0] == "adt" and e.term_ty(v)[1] == "std::option::Option":
        return [(s, mk_iter(x[4])) for s, x in split_variant(e, st, v)]
    it = collection_items(e, st, v, not c.tr, c)
    if it is not None:
        return [(st, mk_iter(it))]
    x = e.through(st, v)
    t = e.term_ty(x)
    if v[0] == "ref" or (e.term_ty(v) or ("?",))[0] == "ref" or not c.tr:
        et = ("ref", 0, elem_ty(t))
    else:
        et = elem_ty(t)
    return [(st, mk_src(x, et))]


@mdl("std::iter::Iterator::next", "std::iter::DoubleEndedIterator::next_back")
def m_next(e, st, c):
    cell, p = e.deref(st, c.args[0])
    return it_next(e, st, cell, p, c)


def it_next(e, st, cell, p, c):
    v = e.load(st, cell, p)
    if v[0] == "adt" and v[1] == "$It":
        items, pos = v[4][0][1], v[4][1][1]
        if pos < len(items):
            e.store(st, cell, p, ("adt", "$It", 0, "", (v[4][0], I(pos + 1, "usize"))))
            return [(st, some(items[pos]))]
        return [(st, NONE)]
    if v[0] == "adt" and v[1] == "$Src":
        base, pos, ety = v[4]
        n = pos[1]
        a = st.fork()
        out = []
        term = ("app", "has", (base, I(n)), ("prim", "bool"))
        k = st.pc.get(term)
        if (k is None or k[1] == 1) and n < getattr(e, "src_unroll", 1):
            a.pc[term] = ("=", 1)
            e.store(a, cell, p, ("adt", "$Src", 0, "", (base, I(n + 1, "usize"), ety)))
            t = ety[1]
            if t[0] == "ref":
                el = e.child(base, "[%d]" % n, t[2]) if base[0] == "sym" else ("app", "elem", (base, I(n)), t[2])
                key = ("el", base, n)
                if key not in a.heap:
                    a.heap[key] = el
                el = ("ref", key, ())
            else:
                el = e.child(base, "[%d]" % n, t) if base[0] == "sym" else ("app", "elem", (base, I(n)), t)
            out.append((a, some(el)))
        if k is None or k[1] == 0 or n >= getattr(e, "src_unroll", 1):
            b = st.fork()
            b.pc[term] = ("=", 0)
            out.append((b, NONE))
        return out
    if v[0] == "adt" and v[1] == "$Map":
        inner, clo, kind = v[4]
        icell = e.new_cell(st, inner)
        out = []
        for s, o in it_next(e, st, icell[1], (), c) or []:
            e.store(s, cell, p, ("adt", "$Map", 0, "", (s.heap[icell[1]], clo, kind)))
            if o[3] == "None":
                out.append((s, o))
            elif kind[1] == "map":
                for s2, x in e.call_value(s, clo, [o[4][0]], depth=c.depth):
                    out.append((s2, some(x)))
            elif kind[1] == "copied":
                out.append((s, some(e.load(s, *e.deref(s, o[4][0])))))
            elif kind[1] == "enumerate":
                cc = clo[1]
                e.store(s, cell, p, ("adt", "$Map", 0, "", (s.heap[icell[1]], I(cc + 1, "usize"), kind)))
                out.append((s, some(("tup", (I(cc, "usize"), o[4][0])))))
            else:
                out.append((s, some(("app", "iter." + kind[1], (o[4][0],), ("?",)))))
        return out
    if v[0] == "adt" and v[1] == "std::ops::Range":
        a, b = v[4]
        if a[0] == "i" and b[0] == "i":
            if a[1] < b[1]:
                e.store(st, cell, p, v[:4] + ((("i", a[1] + 1, a[2]), b),))
                return [(st, some(a))]
            return [(st, NONE)]
    if is_term(v):
        n = st.notes.get(("it", cell, p), 0)
        term = ("app", "has", (v, I(n)), ("prim", "bool"))
        t = c.dty[2][0] if c.dty[0] == "adt" and c.dty[2] else ("?",)
        out = []
        if n < getattr(e, "src_unroll", 1):
            a = st.fork()
            a.pc[term] = ("=", 1)
            a.notes[("it", cell, p)] = n + 1
            out.append((a, some(("app", "elem", (v, I(n)), t))))
        b = st.fork()
        b.pc[term] = ("=", 0)
        out.append((b, NONE))
        return out
    return None


def lazy(kind, has_clo):
    def f(e, st, c):
        v = e.res(st, c.args[0])
        if v[0] == "adt" and v[1] == "std::ops::RangeInclusive" and as_items(e, st, v, False) is not None:
            v = mk_iter(as_items(e, st, v, False))
        if v[0] == "adt" and v[1] in ("$It", "$Src", "$Map", "std::ops::Range"):
            return [(st, ("adt", "$Map", 0, "", (v, c.args[1] if has_clo else I(0, "usize"), ("k", kind))))]
        if v[0] == "adt" and v[1] == "std::option::Option":
            return [(st, ("adt", "$Map", 0, "", (mk_iter(v[4]), c.args[1] if has_clo else I(0, "usize"), ("k", kind))))]
        return None
    return f


MODELS["std::iter::Iterator::map"] = lazy("map", True)
MODELS["std::iter::Iterator::copied"] = lazy("copied", False)
MODELS["std::iter::Iterator::cloned"] = lazy("copied", False)
MODELS["std::iter::Iterator::enumerate"] = lazy("enumerate", False)


@mdl("std::iter::Iterator::flatten")
def m_flatten(e, st, c):
    items = as_items(e, st, e.res(st, c.args[0]), False)
    if items is None:
        return None
    out = []
    for x in items:
        y = as_items(e, st, e.res(st, x), False)
        if y is None:
            out.append(("app", "splice", (e.snap(st, x),), ("?",)))
        else:
            out += y
    return [(st, mk_iter(out))]


@mdl("std::iter::Iterator::rev")
def m_rev(e, st, c):
    items = as_items(e, st, e.res(st, c.args[0]), False)
    if items is None:
        return None
    return [(st, mk_iter(items[::-1]))]


@mdl("std::iter::Iterator::zip")
def m_zip(e, st, c):
    a = as_items(e, st, e.res(st, c.args[0]), False)
    b = as_items(e, st, e.res(st, c.args[1]), False)
    if a is None or b is None:
        return None
    return [(st, mk_iter([("tup", (x, y)) for x, y in zip(a, b)]))]


def drain_iter(e, st, it, c, limit=64):
    """[(state, [items])]"""
    cell = e.new_cell(st, it)
    done, work = [], [(st, [])]
    while work:
        s, acc = work.pop()
        r = it_next(e, s, cell[1], (), c)
        if r is None:
            return None
        for s2, o in r:
            if o[3] == "None":
                done.append((s2, acc))
            elif len(acc) < (4096 if len(r) == 1 else limit):
                # (only one way to go on: the items are known, nothing is being guessed)
                work.append((s2, acc + [o[4][0]]))
            else:
                e.cuts.append((s2, "an iterator of more than %d items in %s"
                               % (limit, c.caller if c else "the caller")))
    return done


@mdl("std::iter::Iterator::collect", "std::iter::FromIterator::from_iter")
def m_collect(e, st, c):
    if c.path in e.mir.fns and c.path != c.d:
        return None
    it = e.res(st, c.args[0])
    if it[0] != "adt" or it[1] not in ("$It", "$Src", "$Map"):
        return None
    t = c.dty
    r = drain_iter(e, st, it, c)
    if r is None:
        return None
    out = []
    for s, items in r:
        if t[0] == "adt" and t[1] == "std::result::Result":
            bad = [x for x in items if e.res(s, x)[0] == "adt" and e.res(s, x)[3] == "Err"]
            if bad:
                out.append((s, e.res(s, bad[0])))
            else:
                xs = []
                for x in items:
                    x = e.res(s, x)
                    xs.append(x[4][0] if x[0] == "adt" else ("app", "unwrap", (x,), ("?",)))
                out.append((s, ok(("arr", tuple(xs)))))
        elif t[0] == "adt" and t[1] in MAPS:
            m = ("map", None, ())
            for x in items:
                x = e.res(s, x)
                if "Map" in t[1]:
                    if x[0] != "tup":
                        m = None
                        break
                    m = map_put(e, s, m, e.snap(s, x[1][0]), x[1][1])
                else:
                    m = map_put(e, s, m, e.snap(s, x), UNIT)
            if m is None:
                return None
            out.append((s, m))
        else:
            out.append((s, ("arr", tuple(items))))
    return out


@mdl("std::iter::Iterator::for_each")
def m_for_each(e, st, c):
    it = e.res(st, c.args[0])
    if it[0] != "adt" or it[1] not in ("$It", "$Src", "$Map"):
        return None
    cell = e.new_cell(st, it)
    done, work = [], [(st, 0)]
    while work:
        s, n = work.pop()
        for s2, o in it_next(e, s, cell[1], (), c) or []:
            if o[3] == "None":
                done.append((s2, UNIT))
            elif n < 64:
                for s3, _ in e.call_value(s2, c.args[1], [o[4][0]], depth=c.depth):
                    work.append((s3, n + 1))
    return done


# ---- indexing -----------------------------------------------------------------------------------------------
@mdl("std::ops::Index::index", "std::ops::IndexMut::index_mut")
def m_index(e, st, c):
    if c.path in e.mir.fns:
        return None
    cell, p = e.deref(st, c.args[0])
    v = e.load(st, cell, p)
    if v[0] == "ref":
        cell, p = v[1], v[2]
        v = e.load(st, cell, p)
    i = e.res(st, c.args[1])
    ty = c.targs[0] if c.targs else ("?",)
    if i[0] == "adt" and i[1].startswith("std::ops::Range"):
        if v[0] in ("arr", "b", "s"):
            w = v[1].encode() if v[0] == "s" else v[1]
            n = len(w)
            k = i[1].split("::")[-1]
            b = {"Range": i[4], "RangeFrom": (i[4][0], I(n)) if k == "RangeFrom" else None, "RangeTo": (I(0), i[4][0]) if k == "RangeTo" else None,
                 "RangeFull": (I(0), I(n))}.get(k)
            if b is not None and b[0][0] == "i" and b[1][0] == "i":
                if not 0 <= b[0][1] <= b[1][1] <= n:
                    raise Panic("slice index out of range")
                if v[0] == "s":
                    try:
                        return [(st, ("s", w[b[0][1]:b[1][1]].decode()))]
                    except UnicodeDecodeError:
                        raise Panic("slice index within a character")
                return [(st, e.new_cell(st, (v[0], tuple(v[1][b[0][1]:b[1][1]]))))]
        return [(st, e.new_cell(st, ("app", "slice", (e.snap(st, v), e.snap(st, i)), ("?",))))]
    if v[0] == "map" or ty[0] == "adt" and ty[1].split("::")[-1] in ("HashMap", "BTreeMap"):
        k = e.snap(st, e.through(st, i))
        out = []
        for s, hit in map_has(e, st, v, k):
            if hit:
                out.append((s, ("ref", cell, p + (("mk", k),))))
            else:
                e.panics.append((s, c.caller, "key not in map"))
        return out
    if i[0] == "i" and v[0] in ("arr", "b") and not 0 <= i[1] < len(v[1]):
        raise Panic("index out of bounds")
    if c.targs and len(c.targs) > 1 and c.targs[1] == ("prim", "usize") or i[0] == "i":
        return [(st, ("ref", cell, p + (("i", i),)))]
    return None


@mdl("core::slice::<impl [T]>::get", "core::slice::<impl [T]>::get_mut", "<[T]>::get", "<[T]>::get_mut")
def m_slice_get(e, st, c):
    v0 = c.args[0]
    cell, p = e.deref(st, v0)
    v = e.load(st, cell, p)
    i = e.res(st, c.args[1])
    if i[0] == "i" and v[0] in ("arr", "b"):
        return [(st, some(("ref", cell, p + (("i", i),))) if 0 <= i[1] < len(v[1]) else NONE)]
    if i[0] != "adt":
        t = ("app", "Lt", (i, ("app", "len", (v,), ("prim", "usize"))), ("prim", "bool"))
        return [(s, some(("ref", cell, p + (("i", i),))) if b else NONE) for s, b in split_bool(e, st, t)]
    return None


@mdl("core::slice::<impl [T]>::last", "core::slice::<impl [T]>::last_mut", "core::slice::<impl [T]>::first", "<[T]>::last", "<[T]>::last_mut", "<[T]>::first")
def m_slice_last(e, st, c):
    cell, p = e.deref(st, c.args[0])
    v = e.load(st, cell, p)
    last = "last" in c.d
    if v[0] in ("arr", "b"):
        return [(st, some(("ref", cell, p + (("i", I(len(v[1]) - 1 if last else 0, "usize")),))) if v[1] else NONE)]
    t = ("app", "is_empty", (v,), ("prim", "bool"))
    ix = ("app", "lastindex", (v,), ("prim", "usize")) if last else I(0, "usize")
    if v[0] == "app" and v[1] == "push":
        return [(st, some(e.new_cell(st, v[2][1])))] if "mut" not in c.d else [(st, some(("ref", cell, p + (("i", ix),))))]
    return [(s, NONE if b else some(("ref", cell, p + (("i", ix),)))) for s, b in split_bool(e, st, t)]


# ---- maps ---------------------------------------------------------------------------------------------------
# ("map", base term or None, ((key, value), ...) newest last)
def as_map(e, v):
    if v[0] == "map":
        return v
    if is_term(v):
        return ("map", v, ())
    return None


def map_get(e, st, v, k):
    m = as_map(e, v)
    if m is None:
        return None
    for a, b in reversed(m[2]):
        if e.snap(st, a) == k:
            return b
    if m[1] is None:
        return None
    t = e.term_ty(m[1])
    vt = t[2][1] if t and t[0] == "adt" and len(t[2]) > 1 else ("?",)
    return e.res(st, ("app", "mapval", (m[1], k), vt))


def map_put(e, st, v, k, x):
    m = as_map(e, v)
    if m is None:
        return ("app", "mapput", (v, k, x), ("?",))
    return ("map", m[1], tuple((a, b) for a, b in m[2] if e.snap(st, a) != k) + ((k, x),))


def map_has(e, st, v, k):
    """[(state, bool)]; distinct key terms are taken as distinct keys (aliases are separate entry states)"""
    m = as_map(e, v)
    if m is None:
        return [(st, True)]
    if any(e.snap(st, a) == k for a, _ in m[2]):
        return [(st, True)]
    if m[1] is None:
        return [(st, False)]
    return split_bool(e, st, ("app", "has_key", (m[1], k), ("prim", "bool")))


MAPS = ("std::collections::HashMap", "std::collections::BTreeMap", "std::collections::hash_map::HashMap", "std::collections::btree_map::BTreeMap",
        "std::collections::HashSet", "std::collections::BTreeSet", "std::collections::hash_set::HashSet")


def map_op(*ops):
    def w(f):
        for m in MAPS:
            for o in ops:
                MODELS[m + "::" + o] = f
        return f
    return w


@map_op("new", "with_capacity")
def m_map_new(e, st, c):
    return [(st, ("map", None, ()))]


@map_op("get", "get_mut")
def m_map_get(e, st, c):
    cell, p = e.deref(st, c.args[0])
    v = e.load(st, cell, p)
    k = e.snap(st, e.through(st, c.args[1]))
    return [(s, some(("ref", cell, p + (("mk", k),))) if b else NONE) for s, b in map_has(e, st, v, k)]


@map_op("contains_key", "contains")
def m_map_has(e, st, c):
    v = e.through(st, c.args[0])
    k = e.snap(st, e.through(st, c.args[1]))
    return [(s, B(b)) for s, b in map_has(e, st, v, k)]


@map_op("insert")
def m_map_insert(e, st, c):
    cell, p = e.deref(st, c.args[0])
    v = e.load(st, cell, p)
    k = e.snap(st, e.through(st, c.args[1]))
    isset = len(c.args) == 2
    out = []
    for s, b in map_has(e, st, v, k):
        old = map_get(e, s, v, k) if b and not isset else None
        e.store(s, cell, p, map_put(e, s, v, k, UNIT if isset else c.args[2]))
        out.append((s, B(not b) if isset else some(old) if b else NONE))
    return out


@map_op("remove")
def m_map_remove(e, st, c):
    cell, p = e.deref(st, c.args[0])
    v = e.load(st, cell, p)
    k = e.snap(st, e.through(st, c.args[1]))
    out = []
    for s, b in map_has(e, st, v, k):
        old = map_get(e, s, v, k)
        m = as_map(e, v)
        if m is None:
            return None
        if b:
            e.store(s, cell, p, ("map", ("app", "without", (m[1], k), e.term_ty(m[1]) or ("?",)) if m[1] is not None else None,
                                 tuple((a, x) for a, x in m[2] if e.snap(s, a) != k)))
        out.append((s, some(old or UNIT) if b else NONE))
    return out


@map_op("entry")
def m_map_entry(e, st, c):
    cell, p = e.deref(st, c.args[0])
    v = e.load(st, cell, p)
    k = e.snap(st, e.through(st, c.args[1]))
    out = []
    for s, b in map_has(e, st, v, k):
        h = ("adt", "$Entry", 0, "", (("ref", cell, p), k))
        out.append((s, ("adt", "std::collections::hash_map::Entry", 0, "Occupied", (h,)) if b else
                    ("adt", "std::collections::hash_map::Entry", 1, "Vacant", (h,))))
    return out


def entry_parts(e, st, v):
    h = e.through(st, v)
    if h[0] == "adt" and h[1] == "std::collections::hash_map::Entry":
        h = h[4][0]
    if h[0] != "adt" or h[1] != "$Entry":
        return None
    r, k = h[4]
    return r[1], r[2], k


def entry_op(*ops):
    def w(f):
        for m in ("std::collections::hash_map::", "std::collections::btree_map::", "std::collections::"):
            for o in ops:
                MODELS[m + o] = f
        return f
    return w


@entry_op("OccupiedEntry::get", "OccupiedEntry::get_mut", "OccupiedEntry::into_mut")
def m_occ(e, st, c):
    q = entry_parts(e, st, c.args[0])
    return q and [(st, ("ref", q[0], q[1] + (("mk", q[2]),)))]


@entry_op("VacantEntry::key", "OccupiedEntry::key", "Entry::key")
def m_entkey(e, st, c):
    q = entry_parts(e, st, c.args[0])
    return q and [(st, e.new_cell(st, q[2]))]


@entry_op("VacantEntry::insert", "OccupiedEntry::insert")
def m_vac(e, st, c):
    q = entry_parts(e, st, c.args[0])
    if not q:
        return None
    old = map_get(e, st, e.load(st, q[0], q[1]), q[2])
    e.store(st, q[0], q[1], map_put(e, st, e.load(st, q[0], q[1]), q[2], c.args[1]))
    if "Occupied" in c.d:
        return [(st, old)]
    return [(st, ("ref", q[0], q[1] + (("mk", q[2]),)))]


@entry_op("Entry::or_insert", "Entry::or_insert_with", "Entry::or_default")
def m_orins(e, st, c):
    q = entry_parts(e, st, c.args[0])
    if not q:
        return None
    ent = e.through(st, c.args[0])
    r = ("ref", q[0], q[1] + (("mk", q[2]),))
    if ent[3] == "Occupied":
        return [(st, r)]
    op = strip_generics(c.d).split("::")[-1]
    if op == "or_insert":
        vs = [(st, c.args[1])]
    elif op == "or_insert_with":
        vs = e.call_value(st, c.args[1], [], depth=c.depth)
    else:
        t = c.dty[2] if c.dty[0] == "ref" else ("?",)
        vs = [(st, default_of(t))]
    for s, x in vs:
        e.store(s, q[0], q[1], map_put(e, s, e.load(s, q[0], q[1]), q[2], x))
    return [(s, r) for s, _ in vs]


def default_of(t):
    if t[0] == "adt":
        n = t[1].split("::")[-1]
        if n == "Vec":
            return ("arr", ())
        if n in ("HashMap", "BTreeMap", "HashSet", "BTreeSet"):
            return ("map", None, ())
        if n == "Option":
            return NONE
    if t[0] == "prim" and t[1] in BITS:
        return ("i", 0, t[1])
    return ("app", "default", (), t)


@mdl("std::default::Default::default")
def m_default(e, st, c):
    if c.path in e.mir.fns:
        return None
    v = default_of(c.dty)
    return [(st, v)] if v[0] != "app" else None


@map_op("iter", "iter_mut", "into_iter", "drain")
def m_map_iter(e, st, c):
    v = e.res(st, c.args[0])
    it = collection_items(e, st, v, v[0] == "ref", c)
    return [(st, mk_iter(it))] if it is not None else m_into_iter(e, st, c)


@map_op("keys", "values", "values_mut", "into_keys", "into_values")
def m_map_kv(e, st, c):
    v = e.res(st, c.args[0])
    it = collection_items(e, st, v, v[0] == "ref", c)
    if it is None:
        return None
    k = 0 if "keys" in c.d.split("::")[-1] else 1
    return [(st, mk_iter([x[1][k] if x[0] == "tup" else x for x in it]))]


@mdl("std::string::ToString::to_string", "std::string::String::as_str", "std::string::String::as_bytes", "core::str::<impl str>::as_bytes",
     "std::string::String::into_bytes", "std::string::String::as_mut_str", "std::string::String::into_boxed_str", "str::as_bytes")
def m_str_id(e, st, c):
    if c.path in e.mir.fns and c.tr:
        return None
    if strip_generics(c.d).split("::")[-1] in ("to_string", "into_bytes"):
        v = e.snap(st, e.through(st, c.args[0]))
        if v[0] == "i" and v[2] in BITS and v[2] not in ("bool", "char"):
            v = ("s", str(v[1]))
        return [(st, v)]
    return [(st, c.args[0])]


def str_op(*ops):
    def w(f):
        for o in ops:
            for p in ("core::str::<impl str>::", "str::", "std::string::String::", "std::primitive::str::"):
                MODELS[p + o] = f
        return f
    return w


@str_op("is_empty")
def m_str_is_empty(e, st, c):
    v = e.through(st, c.args[0])
    if v[0] == "s":
        return [(st, B(v[1] == ""))]
    return None


def pattern(e, st, v):
    v = e.through(st, v)
    if v[0] == "i":
        return chr(v[1])
    if v[0] == "s":
        return v[1]
    return None


@str_op("strip_prefix", "strip_suffix")
def m_str_strip(e, st, c):
    v = e.through(st, c.args[0])
    p = pattern(e, st, c.args[1])
    if v[0] != "s" or p is None:
        return None
    if strip_generics(c.d).split("::")[-1] == "strip_prefix":
        return [(st, some(("s", v[1][len(p):])) if v[1].startswith(p) else NONE)]
    return [(st, some(("s", v[1][:len(v[1]) - len(p)])) if v[1].endswith(p) else NONE)]


@str_op("find", "rfind", "contains", "starts_with", "ends_with")
def m_str_find(e, st, c):
    v = e.through(st, c.args[0])
    p = pattern(e, st, c.args[1])
    op = strip_generics(c.d).split("::")[-1]
    if v[0] != "s" or p is None:
        return None
    if op == "contains":
        return [(st, B(p in v[1]))]
    if op in ("starts_with", "ends_with"):
        return [(st, B(v[1].startswith(p) if op == "starts_with" else v[1].endswith(p)))]
    b, q = v[1].encode(), p.encode()
    i = b.find(q) if op == "find" else b.rfind(q)
    return [(st, NONE if i < 0 else some(I(i, "usize")))]


@map_op("len")
def m_map_len(e, st, c):
    v = e.through(st, c.args[0])
    if v[0] == "map" and v[1] is None:
        return [(st, I(len(v[2]), "usize"))]
    return [(st, ("app", "len", (v,), ("prim", "usize")))]


@map_op("is_empty")
def m_map_isempty(e, st, c):
    v = e.through(st, c.args[0])
    if v[0] == "map" and (v[1] is None or v[2]):
        return [(st, B(not v[2]))]
    return [(st, ("app", "is_empty", (v,), ("prim", "bool")))]


# ---- integers -----------------------------------------------------------------------------------------------
def to_bytes(e, st, c):
    v = c.args[0]
    t = c.d
    import re
    m = re.search(r"<impl (\w+)>", t)
    ty = m.group(1) if m else None
    if ty is None:
        ty = t.split("::")[-2]
    n = BITS.get(ty, {"f32": 32, "f64": 64}.get(ty, 0)) // 8
    le = t.endswith("to_le_bytes")
    if v[0] == "i":
        bs = (v[1] & ((1 << (8 * n)) - 1)).to_bytes(n, "little" if le else "big")
        return [(st, ("arr", tuple(("i", b, "u8") for b in bs)))]
    return [(st, ("arr", tuple(("app", "byte%d" % (k if le else n - 1 - k), (v,), ("prim", "u8")) for k in range(n))))]


for _t in ("u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "f32", "f64", "usize", "isize"):
    for _m in ("to_le_bytes", "to_be_bytes"):
        for _p in ("core::num::<impl %s>::%s", "core::%s::<impl %s>::%s", "%s::%s", "std::primitive::%s::%s"):
            try:
                MODELS[_p % (_t, _m)] = to_bytes
            except TypeError:
                pass
    MODELS["core::f32::<impl f32>::to_le_bytes"] = to_bytes
    MODELS["core::f64::<impl f64>::to_le_bytes"] = to_bytes

import stdmodels  # noqa: E402,F401  (registers more models)
