"""Reference meaning of the compiler's run-time IR over the terms of `terms`.

Expressions are the python trees of `irb`; values are byte lists laid out by the C rules; effects are the ordered log of
stores and calls of `x86sym.Heap`.  The evaluation is partitioned on undecided branch conditions.
"""
import struct as _struct
from terms import *
from x86sym import Heap, Bad

PAD = ("J", "pad")


class Types:
    """sizes, offsets and register classes, derived from the C layout rules (independently of the compiler's tables)"""

    def __init__(self, defs=None):
        self.defs = defs or {}
        self.cache = {}

    def lay(self, t):
        """(size, align, flat fields [(offset, size, class)])"""
        if t not in self.cache:
            self.cache[t] = self._lay(t)
        return self.cache[t]

    def _lay(self, t):
        if isinstance(t, str):
            if t == "unit":
                return 0, 1, []
            if t in ("string", ):
                return 16, 8, [(0, 8, "I"), (8, 8, "I")]
            if t == "use":
                return 16, 8, [(0, 8, "I"), (8, 8, "I")]
            if t == "char":
                return 4, 4, [(0, 4, "I")]
            if t in ("f32", "f64"):
                n = int(t[1:]) // 8
                return n, n, [(0, n, "F")]
            if t == "env":
                return 8, 8, [(0, 8, "I")]
            bits = int(t[1:])
            n = 1
            while n * 8 < bits:
                n *= 2
            return n, n, [(0, n, "I")]
        if t[0] in ("ptr", "syntax"):
            return 8, 8, [(0, 8, "I")]
        if t[0] in ("array", "clos"):
            return 16, 8, [(0, 8, "I"), (8, 8, "I")]
        d = self.defs[t[1]]
        if d[0] == "struct":
            off, al, fs = 0, 1, []
            for f in d[1]:
                n, a, sub = self.lay(f)
                off += -off % a
                fs += [(off + o, k, c) for o, k, c in sub]
                off += n
                al = max(al, a)
            return off + -off % al, al, fs
        ls = [self.lay(x) for x in d[1]]
        n = max([l[0] for l in ls] or [0])
        al = max([l[1] for l in ls] or [1])
        n += -n % al
        return n, al, ([(0, n, "I")] if n else [])

    def size(self, t):
        return self.lay(t)[0]

    def offsets(self, t):
        off, out = 0, []
        for f in self.defs[t[1]][1]:
            n, a, _ = self.lay(f)
            off += -off % a
            out.append(off)
            off += n
        return out

    def classes(self, t):
        """register class of each eightbyte, or None when passed in memory"""
        n, _, fs = self.lay(t)
        if n > 16 or n == 0:
            return None if n else []
        out = []
        for b in range(0, n, 8):
            cs = [c for o, k, c in fs if o < b + 8 and o + k > b]
            out.append("I" if "I" in cs else ("F" if cs else "N"))
        return out

    def fields_bytes(self, t, leaf):
        """the bytes of a fresh value: leaf(offset, size, class) names each field"""
        n, _, fs = self.lay(t)
        bs = [PAD] * n
        for o, k, c in fs:
            v = leaf(o, k, c)
            for i, b in enumerate(bytes_of(v)):
                bs[o + i] = b
        return bs

    def mask(self, t):
        """which bytes carry value"""
        n, _, fs = self.lay(t)
        m = [False] * n
        for o, k, c in fs:
            for i in range(k):
                m[o + i] = True
        return m


def fresh(types, t, name):
    if t == "u1":
        return bytes_of(BOOL(("p", name)))
    def leaf(o, k, c):
        return V(k, name if types.size(t) == k else "%s.%d" % (name, o))
    return types.fields_bytes(t, leaf)


LIBM = {"RealCeil": "ceil", "RealFloor": "floor", "RealTrunc": "trunc", "RealRound": "round", "MathSqrt": "sqrt", "MathSin": "sin",
        "MathCos": "cos", "MathExp": "exp", "MathLog": "log", "FRem": "fmod", "MathPow": "pow"}


class Return(Exception):
    pass


class Unreachable(Exception):
    pass


class Cont(Exception):
    pass


class Undecided(Exception):
    pass


class Cut(Exception):
    pass


def fconst(ty, v):
    return K(4, _struct.unpack("<I", _struct.pack("<f", v))[0]) if ty == "f32" else K(8, _struct.unpack("<Q", _struct.pack("<d", v))[0])


class Spec:
    def __init__(self, types, pc, c_order="lr", loop=4, alloc_first=False):
        self.t = types
        self.pc = pc
        self.heap = Heap()
        self.env = {}
        self.conts = {}
        self.c_order = c_order
        self.ncall = {}
        self.nalloc = 0
        self.nsa = 0
        self.allocs = []
        self.uid = 0
        self.loop = loop
        self.loads = []
        self.alloc_first = alloc_first
        self.envslots = {}

    # ---- helpers
    def decide(self, c):
        if c is True or c is False:
            return c
        if c in self.pc:
            return self.pc[c]
        n = NOT(c)
        if n in self.pc:
            return not self.pc[n]
        if c[0] == "not":
            return not self.decide(c[1])
        if c[0] == "and":
            return self.decide(c[1]) and self.decide(c[2])
        raise Undecided(c)

    def term(self, bs):
        return mk(list(bs))

    def load(self, addr, t):
        n = self.t.size(t)
        self.loads.append((Heap.key(addr), n))
        return self.mask(self.heap.load(addr, n), t)

    def mask(self, bs, t):
        return [b if m else PAD for b, m in zip(bs, self.t.mask(t))]

    def call(self, name, args, ret, pure=False, extra=None):
        """args: [(type, bytes)]"""
        n = self.ncall.get(name, 0)
        self.ncall[name] = n + 1
        self.heap.event("call", name, [(t, list(b)) for t, b in args], extra, {k: dict(v) for k, v in self.heap.sa.items()})
        return fresh(self.t, ret, "%s#%d" % (name if isinstance(name, str) else show(name), n))

    def ty(self, x):
        """static type of a tree, None when it diverges"""
        k = x[0]
        if k in ("var",):
            return x[2]
        if k == "const":
            return {"int": lambda: x[2], "fp": lambda: x[2], "str": lambda: "string", "char": lambda: "char", "unit": lambda: "unit"}[x[1]]()
        if k == "fun":
            return x[2]
        if k == "call":
            if x[1] == "std":
                ct = self.ty(x[2])
                return None if ct is None else ct[2]
            return "u1" if x[1] == "main" else x[3]
        if k in ("contcall", "return", "never"):
            return None
        if k == "nullary":
            o = x[1]
            return {"Uninitialized": lambda: o[1], "Null": lambda: ("ptr", o[1]), "GenId": lambda: "string", "SizeOf": lambda: "u64", "AlignOf": lambda: "u64"}[o[0]]()
        if k == "unary":
            o, a = x[1], x[2]
            n = o[0]
            if n == "Panic":
                return None
            if n == "Not":
                return "u1"
            if n in ("Load", "SyntaxBody"):
                return self.ty(a)[1]
            if n in ("StructElem", "Reinterpret", "BitCast", "ITrunc", "SExt", "UExt", "SToF", "UToF", "FToS", "FToU", "FTrunc", "FExt"):
                return o[1]
            if n == "IToPtr":
                return ("ptr", o[1])
            if n in ("PtrToI", "StringLength", "ArrayLength"):
                return "u64"
            if n == "StringPtr":
                return ("ptr", "u8")
            if n == "ArrayPtr":
                return ("ptr", self.ty(a)[1])
            return self.ty(a)
        if k == "binary":
            n = x[1][0]
            if n == "Store":
                return "unit"
            if n == "Offset":
                return self.ty(x[3])
            if n[:3] == "Ptr" or n in ("IEq", "SLt", "SLe", "SGt", "SGe", "ULt", "ULe", "UGt", "UGe", "FEq", "FLt", "FLe", "FGt", "FGe", "StringEq"):
                return "u1"
            if n in ("StringConstruct", "StringConcat"):
                return "string"
            if n == "StringCmp":
                return "s32"
            if n == "ArrayConstruct":
                return ("array", self.ty(x[2])[1])
            if n == "ArrayLoad":
                return self.ty(x[3])[1]
            return self.ty(x[2])
        if k == "ternary":
            return "unit"
        if k == "alloc":
            return ("ptr", self.ty(x[2]))
        if k == "allocarray":
            return ("array", x[2])
        if k == "env":
            return "env"
        if k == "struct":
            return x[1]
        if k == "syntax":
            return ("syntax", self.ty(x[1]))
        if k == "seq":
            return self.ty(x[2])
        if k == "if":
            return self.ty(x[2]) or self.ty(x[3])
        if k == "while":
            return "unit"
        if k == "let":
            return self.ty(x[2])
        if k == "letcont":
            return self.ty(x[2]) or next((t for _, _, b in x[1] for t in [self.ty(b)] if t), None)
        raise KeyError(k)

    # ---- evaluation
    def ev(self, x):
        return getattr(self, "e_" + x[0])(x)

    def e_var(self, x):
        return self.env[x[1]]

    def e_const(self, x):
        k = x[1]
        if k == "int":
            ty, signed, v = x[2], x[3], x[4]
            if ty in ("f32", "f64"):
                return bytes_of(fconst(ty, float(v - (1 << 64) if signed and v >> 63 else v)))
            return bytes_of(K(self.t.size(ty), v))
        if k == "fp":
            return bytes_of(fconst(x[2], x[3]))
        if k == "str":
            n = len(x[2].encode())
            return bytes_of(V(8, ("rodata", x[2].encode()))) + bytes_of(K(8, n)) if n else [PAD] * 8 + bytes_of(K(8, 0))
        if k == "char":
            return bytes_of(K(4, x[2]))
        if k == "unit":
            return []
        raise KeyError(k)

    def e_fun(self, x):
        # without an environment the second word is unused by the callee
        env = [PAD] * 8 if x[3] is None else self.ev(x[3])
        return bytes_of(V(8, ("sym", "fun%d" % x[1]))) + env

    def e_call(self, x):
        kind = x[1]
        if kind == "std":
            args = [self.ev(a) for a in x[4]]
            ct = self.ty(x[2])
            c = self.ev(x[2])
            f, env = mk(c[:8]), c[8:16]
            return self.call(f, list(zip(ct[1], args)), ct[2], extra=("env", env))
        order = list(range(len(x[4])))
        if self.c_order == "stack":
            # the arguments that travel on the stack, then the others, each from the last
            regs = self.in_regs([self.ty(a) for a in x[4]], "u1" if kind == "main" else x[3])
            order = [i for i in reversed(order) if not regs[i]] + [i for i in reversed(order) if regs[i]]
        elif self.c_order != "lr":
            order.reverse()
        args = [None] * len(order)
        f = None
        if kind != "c" and self.c_order == "lr-first":
            f = mk(self.ev(x[2]))
        for i in order:
            args[i] = self.ev(x[4][i])
        if kind == "c":
            f = x[2]
        elif f is None:
            f = mk(self.ev(x[2]))
        ret = "u1" if kind == "main" else x[3]
        return self.call(f, [(self.ty(a), v) for a, v in zip(x[4], args)], ret)

    def in_regs(self, tys, ret):
        rc = self.t.classes(ret)
        g, f = (1 if rc is None else 0), 0
        out = []
        for t in tys:
            cs = self.t.classes(t)
            ng, nf = (cs or []).count("I"), (cs or []).count("F")
            if cs and g + ng <= 6 and f + nf <= 8:
                g, f = g + ng, f + nf
                out.append(True)
            else:
                out.append(False)
        return out

    def e_contcall(self, x):
        vals = []
        for a in x[2]:
            vals.append(self.ev(a))
        raise Cont(x[1], vals)

    def e_nullary(self, x):
        o = x[1]
        if o[0] == "Uninitialized":
            return [PAD] * self.t.size(o[1])
        if o[0] == "Null":
            return bytes_of(K(8, 0))
        if o[0] == "GenId":
            return self.call("llrt_string_genid", [], "string")
        return bytes_of(K(8, self.t.lay(o[1])[0 if o[0] == "SizeOf" else 1]))

    def e_unary(self, x):
        o, at = x[1], self.ty(x[2])
        a = self.ev(x[2])
        n = o[0]
        if n == "Not":
            return bytes_of(BXOR(mk(a), K(1, 1)))
        if n == "Load":
            return self.load(mk(a), at[1])
        if n == "SyntaxBody":
            return self.load(ADD(mk(a), K(8, 8)), at[1])
        if n == "StructElem":
            off = self.t.offsets(at)[o[2]]
            return a[off:off + self.t.size(o[1])]
        if n == "Reinterpret":
            w = self.t.size(o[1])
            return (a + [PAD] * w)[:w]
        if n == "Panic":
            self.call("llrt_panic", [("string", a)], "unit")
            raise Unreachable()
        if n in ("BitCast", "PtrToI", "IToPtr"):
            return a
        if n == "IComplement":
            return bytes_of(BXOR(mk(a), K(len(a), -1)))
        if n == "IPopCount":
            return bytes_of(POPCNT(mk(a), len(a)))
        if n in ("ITrunc", "SExt", "UExt", "SToF", "UToF", "FToS", "FToU", "FTrunc", "FExt"):
            w = self.t.size(o[1])
            t = mk(a)
            r = {"ITrunc": lambda: trunc(t, w), "SExt": lambda: sx(t, w), "UExt": lambda: zx(t, w), "SToF": lambda: ("op", w, "itof", "s", t),
                 "UToF": lambda: ("op", w, "itof", "z", t), "FToS": lambda: ("op", w, "fcvt", "s", t), "FToU": lambda: ("op", w, "fcvt", "z", t),
                 "FTrunc": lambda: OP(w, "ftrunc", t), "FExt": lambda: OP(w, "fext", t)}[n]()
            return bytes_of(r)
        if n in LIBM:
            return bytes_of(OP(len(a), LIBM[n], mk(a)))
        if n in ("StringPtr", "ArrayPtr"):
            return a[:8]
        if n in ("StringLength", "ArrayLength"):
            return a[8:]
        raise KeyError(n)

    def e_binary(self, x):
        n = x[1][0]
        a = self.ev(x[2])
        b = self.ev(x[3])
        if n == "Store":
            self.heap.store(mk(b), a)
            return []
        if n == "Offset":
            es = self.t.size(self.ty(x[3])[1])
            return bytes_of(lin_of(8, [(mk(b), 1), (mk(a), es)], 0))
        if n in ("StringConstruct", "ArrayConstruct"):
            return a + b
        if n == "StringEq":
            return self.call("llrt_string_eq", [("string", a), ("string", b)], "u1")
        if n == "StringCmp":
            return self.call("llrt_string_cmp", [("string", a), ("string", b)], "s32")
        if n == "StringConcat":
            return self.call("llrt_string_concat", [("string", a), ("string", b)], "string")
        if n == "ArrayLoad":
            et = self.ty(x[3])[1]
            return self.load(lin_of(8, [(mk(b[:8]), 1), (mk(a), self.t.size(et))], 0), et)
        p, q = mk(a), mk(b)
        w = len(a)
        c = {"PtrEq": lambda: EQ(p, q), "IEq": lambda: EQ(p, q), "PtrLt": lambda: ULT(p, q), "PtrLe": lambda: NOT(ULT(q, p)),
             "PtrGt": lambda: ULT(q, p), "PtrGe": lambda: NOT(ULT(p, q)), "ULt": lambda: ULT(p, q), "ULe": lambda: NOT(ULT(q, p)),
             "UGt": lambda: ULT(q, p), "UGe": lambda: NOT(ULT(p, q)), "SLt": lambda: SLT(p, q), "SLe": lambda: NOT(SLT(q, p)),
             "SGt": lambda: SLT(q, p), "SGe": lambda: NOT(SLT(p, q)), "FEq": lambda: FC("feq", p, q), "FLt": lambda: FC("flt", p, q),
             "FLe": lambda: FC("fle", p, q), "FGt": lambda: FC("flt", q, p), "FGe": lambda: FC("fle", q, p)}.get(n)
        if c:
            return bytes_of(BOOL(c()))
        r = {"IShl": lambda: SHIFT("shl", p, trunc(q, 1)), "IAShr": lambda: SHIFT("ashr", p, trunc(q, 1)), "ILShr": lambda: SHIFT("lshr", p, trunc(q, 1)),
             "IAnd": lambda: BAND(p, q), "IOr": lambda: BOR(p, q), "IXor": lambda: BXOR(p, q), "SAdd": lambda: ADD(p, q), "UAdd": lambda: ADD(p, q),
             "SSub": lambda: SUB(p, q), "USub": lambda: SUB(p, q), "SMul": lambda: MUL(p, q), "UMul": lambda: MUL(p, q),
             "SDiv": lambda: OP(w, "sdiv", p, q), "UDiv": lambda: OP(w, "udiv", p, q), "SRem": lambda: OP(w, "srem", p, q),
             "URem": lambda: OP(w, "urem", p, q), "FAdd": lambda: OP(w, "fadd", p, q), "FSub": lambda: OP(w, "fsub", p, q),
             "FMul": lambda: OP(w, "fmul", p, q), "FDiv": lambda: OP(w, "fdiv", p, q), "FRem": lambda: OP(w, "fmod", p, q),
             "MathPow": lambda: OP(w, "pow", p, q)}[n]()
        return bytes_of(r)

    def e_ternary(self, x):
        n = x[1][0]
        a, b, c = self.ev(x[2]), self.ev(x[3]), self.ev(x[4])
        if n in ("PtrCopy", "PtrMove"):
            es = self.t.size(self.ty(x[4])[1])
            self.call("memcpy" if n == "PtrCopy" else "memmove", [("u64", c), ("u64", a), ("u64", bytes_of(lin_of(8, [(mk(b), es)], 0)))], "u64")
            return []
        et = self.ty(x[4])[1]
        self.heap.store(lin_of(8, [(mk(c[:8]), 1), (mk(a), self.t.size(et))], 0), b)
        return []

    def new_alloc(self, size):
        self.nalloc += 1
        self.allocs.append(size)
        return V(8, "alloc#%d" % self.nalloc)

    def e_alloc(self, x):
        if x[1] == "StackStatic":
            v = self.ev(x[2])
            self.nsa += 1
            p = V(8, "sa#%d" % self.nsa)
            self.sasize = getattr(self, "sasize", {})
            self.sasize[p] = (self.t.size(self.ty(x[2])), self.t.lay(self.ty(x[2]))[1])
            self.heap.sa[p] = {}
            self.heap.store(p, v)
            return bytes_of(p)
        t = self.ty(x[2])
        if t is None:
            self.ev(x[2])
            raise Unreachable()
        v = self.ev(x[2])
        p = self.new_alloc(K(8, self.t.size(t)))
        self.heap.store(p, v)
        return bytes_of(p)

    def e_allocarray(self, x):
        n = self.ev(x[3])
        p = self.new_alloc(lin_of(8, [(mk(n), self.t.size(x[2]))], 0))
        return bytes_of(p) + n

    word = 8                                # elements of environments occupy whole words

    def e_env(self, x):
        vals = [(self.ty(a), self.ev(a)) for a in x[2]]
        slots = self.envslots[tuple(t for t, _ in vals)]
        # the words an element occupies belong to it, as far as they are not another's
        full = lambda t, o: min([-(-self.t.size(t) // self.word) * self.word] + [q - o for (u, _), q in zip(vals, slots) if q > o and self.t.size(u)])
        p = self.new_alloc(("atleast", max([o + full(t, o) for (t, _), o in zip(vals, slots)] + [0])))
        for (t, v), o in zip(vals, slots):
            self.heap.store(ADD(p, K(8, o)), v + [PAD] * (full(t, o) - len(v)))
        return bytes_of(p)

    def e_struct(self, x):
        bs = [PAD] * self.t.size(x[1])
        for off, a in zip(self.t.offsets(x[1]), x[2]):
            v = self.ev(a)
            bs[off:off + len(v)] = v
        return bs

    def e_syntax(self, x):
        t = self.ty(x[1])
        v = self.ev(x[1])
        n, a, _ = self.t.lay(t)
        p = self.new_alloc(("atleast", 8 + n))
        self.heap.store(p, bytes_of(V(8, ("any", "metadata"))) + v)
        return bytes_of(p)

    def e_seq(self, x):
        for a in x[1]:
            self.ev(a)
        return self.ev(x[2])

    def cond(self, x):
        return self.decide(NOT(EQ(mk(self.ev(x)), K(1, 0))))

    def e_if(self, x):
        return self.ev(x[2]) if self.cond(x[1]) else self.ev(x[3])

    def e_while(self, x):
        n = 0
        while self.cond(x[1]):
            n += 1
            if n > self.loop:
                raise Cut()
            self.ev(x[2])
        return []

    def e_return(self, x):
        raise Return(self.ev(x[1]))

    def e_never(self, x):
        raise Unreachable()

    def e_let(self, x):
        for i, t, e in x[1]:
            self.env[i] = self.ev(e)
        return self.ev(x[2])

    def e_letcont(self, x):
        body = x[2]
        mine = {i: (ps, b) for i, ps, b in x[1]}
        n = 0
        while True:
            try:
                return self.ev(body)
            except Cont as c:
                cid, vals = c.args
                if cid not in mine:
                    raise
                ps, body = mine[cid]
                for (i, t), v in zip(ps, vals):
                    self.env[i] = v
                n += 1
                if n > 50:
                    raise Cut()

    def run(self, body):
        """("ret", bytes) | ("unreachable",) | ("cut",) | ("undecided", cond)"""
        try:
            return ("ret", self.ev(body))
        except Return as r:
            return ("ret", r.args[0])
        except Unreachable:
            return ("unreachable",)
        except Cut:
            return ("cut",)
        except Undecided as u:
            return ("undecided", u.args[0])


# ---- agreement of an emitted value with the specified one
def accept(sp, m, pc):
    """does the machine's term denote the specified term under the path condition?"""
    if sp == m:
        return True
    if sp[0] == "op" and sp[2] == "itof" and sp[3] == "z":
        w, x = sp[1], sp[4]
        neg = pc.get(SLT(x, K(x[1], 0))) if x[0] != "k" else None
        if x[1] == 8:
            if neg is False and m == ("op", w, "itof", "s", x):
                return True
            h = ("op", w, "itof", "s", halve(x))
            if neg is True and m in (OP(w, "fadd", h, h),):
                return True
    if sp[0] == "op" and sp[2] == "fcvt":
        w, x = sp[1], sp[4]
        for W in (4, 8):
            f = OP(W, "ftoi", x)
            if W >= w and (sp[3] == "s" or W > w) and m == trunc(f, w):
                return True
        if sp[3] == "z" and w == 8:
            lim = fconst("f32" if x[1] == 4 else "f64", 2.0 ** 63)
            ge = pc.get(FC("fle", lim, x))
            if ge is None and FC("flt", x, lim) in pc:
                ge = not pc[FC("flt", x, lim)]
            if ge is False and m == OP(8, "ftoi", x):
                return True
            hi = OP(8, "ftoi", OP(x[1], "fsub", x, lim))
            if ge is True and m in (ADD(hi, K(8, 1 << 63)), BXOR(hi, K(8, 1 << 63))):
                return True
    return False
