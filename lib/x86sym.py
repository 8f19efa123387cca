"""Value analysis of straight x86-64 instruction streams as produced by the code generator.

The stream is the list of typed instruction-writer calls an emitter makes (mnemonic and operands), with label positions.
Registers and stack slots hold byte lists over the terms of `terms`; the stack is tracked relative to the entry stack
pointer; other memory is an ordered log of stores and calls.  Control flow is followed per label; a conditional jump on
an undecided condition partitions the analysis.
"""
from terms import *

RAX, RCX, RDX, RBX, RSP, RBP, RSI, RDI = range(8)
CALLEE_SAVED = (RBX, RBP, 12, 13, 14, 15)
RSP0 = V(8, "rsp0")
GP = ["rax", "rcx", "rdx", "rbx", "rsp", "rbp", "rsi", "rdi"] + ["r%d" % i for i in range(8, 16)]
W = {"b": 1, "w": 2, "l": 4, "q": 8}
CC = {}
for _names, _f in (("o", "o"), ("no", "!o"), ("b c nae", "c"), ("ae nb nc", "!c"), ("e z", "z"), ("ne nz", "!z"), ("be na", "be"), ("a nbe", "!be"),
                   ("s", "s"), ("ns", "!s"), ("p pe", "p"), ("np po", "!p"), ("l nge", "l"), ("ge nl", "!l"), ("le ng", "le"), ("g nle", "!le")):
    for _n in _names.split():
        CC[_n] = _f


class Bad(Exception):
    """the analysed code does something no correct translation does on this path: (kind, text)"""


class Unsupported(Exception):
    pass


class Heap:
    """ordered log of stores and calls; consecutive stores through the same base merge"""

    def __init__(self):
        self.log = []
        self.sa = {}            # spec side: contents of statically allocated stack objects

    def fork(self):
        h = Heap()
        h.log = [("store", e[1], dict(e[2])) if e[0] == "store" else e for e in self.log]
        h.sa = {k: dict(v) for k, v in self.sa.items()}
        return h

    @staticmethod
    def key(addr):
        p, c = parts(addr)
        c = c - (1 << 64) if c >> 63 else c
        return tuple(sorted(p, key=repr)), c

    def store(self, addr, bs):
        k, c = self.key(addr)
        if len(k) == 1 and k[0][0][0] == "v" and str(k[0][0][2]).startswith("sa#") and k[0][1] == 1:
            d = self.sa.setdefault(k[0][0], {})
        elif self.log and self.log[-1][0] == "store" and self.log[-1][1] == k:
            d = self.log[-1][2]
        else:
            if not bs:
                return
            d = {}
            self.log.append(("store", k, d))
        for i, b in enumerate(bs):
            d[c + i] = b

    def load(self, addr, n):
        k, c = self.key(addr)
        if len(k) == 1 and k[0][0] in self.sa and k[0][1] == 1:
            return [self.sa[k[0][0]].get(c + i, ("J", "uninit")) for i in range(n)]
        out = []
        for off in range(c, c + n):
            i = len(self.log) - 1
            r = None
            while i >= 0:
                e = self.log[i]
                if e[0] == "store" and e[1] == k:
                    if off in e[2]:
                        r = e[2][off]
                        break
                elif e[0] != "note":
                    break
                i -= 1
            if r is None:
                ver = sum(1 for e in self.log[:i + 1] if e[0] != "note")
                r = (("ld", 0, ver, k, 0), off)
            out.append(r)
        return out

    def event(self, *e):
        self.log.append(e)


class St:
    def __init__(self):
        self.r = [[(V(8, GP[i]), j) for j in range(8)] for i in range(16)]
        self.r[RSP] = bytes_of(RSP0)
        self.x = [[("J", "xmm%d.%d" % (i, j)) for j in range(16)] for i in range(16)]
        self.stack = {}
        self.heap = Heap()
        self.flags = None
        self.pc = {}
        self.ncall = {}
        self.ip = 0
        self.visits = {}
        self.out = None
        self.bad = []
        self.uid = 0
        self.allocs = []
        self.loads = []

    def fork(self):
        s = St.__new__(St)
        s.r = [list(b) for b in self.r]
        s.x = [list(b) for b in self.x]
        s.stack = dict(self.stack)
        s.heap = self.heap.fork()
        s.flags = self.flags
        s.pc = dict(self.pc)
        s.ncall = dict(self.ncall)
        s.ip = self.ip
        s.visits = dict(self.visits)
        s.out = self.out
        s.bad = list(self.bad)
        s.uid = self.uid
        s.allocs = list(self.allocs)
        s.loads = list(self.loads)
        return s

    def junk(self, n, why="junk"):
        self.uid += 1
        return [("J", "%s%d.%d" % (why, self.uid, i)) for i in range(n)]

    def reg(self, i):
        return mk(self.r[i])

    def rsp(self):
        t = self.reg(RSP)
        p, c = parts(t)
        if p == [(RSP0, 1)]:
            return c - (1 << 64) if c >> 63 else c
        raise Bad("stack", "the stack pointer is not at a known offset: %s" % show(t))


def stack_off(addr):
    p, c = parts(addr)
    if any(t == RSP0 for t, _ in p):
        if p == [(RSP0, 1)]:
            return c - (1 << 64) if c >> 63 else c
        raise Bad("stack", "computed address into the stack: %s" % show(addr))
    return None


class Machine:
    def __init__(self, stream, on_call, labels=None, max_visits=3, max_paths=400):
        self.code = stream.code             # [("inst", mnemonic, operands) | ("label", n)]
        self.names = stream.names           # label -> external / global name
        self.stream = stream
        self.on_call = on_call              # f(machine, state, target) -> None; target: ("sym", name) | ("ind", term)
        self.at = {e[1]: i for i, e in enumerate(self.code) if e[0] == "label"}
        self.max_visits, self.max_paths = max_visits, max_paths
        self.count = 0

    # ---- operands
    def addr(self, s, m):
        _, base, index, scale, disp = m
        if base == "rip":
            raise Unsupported("rip-relative operand")
        items = []
        if base is not None:
            items.append((s.reg(base), 1))
        if index is not None:
            items.append((s.reg(index), scale))
        return lin_of(8, items, disp)

    def rdmem(self, s, a, n):
        o = stack_off(a)
        if o is not None:
            return [s.stack[o + i] if o + i in s.stack else ("J", "stk%d" % (o + i)) for i in range(n)]
        if a[0] == "v" or a[0] != "k":
            s.loads.append((len(s.heap.log), Heap.key(a), n))
        return s.heap.load(a, n)

    def wrmem(self, s, a, bs):
        o = stack_off(a)
        if o is not None:
            if o < s.rsp():
                raise Bad("stack", "write below the stack pointer at entry%+d" % o)
            if o < 8 and o + len(bs) > 0:
                raise Bad("stack", "write over the return address")
            for i, b in enumerate(bs):
                s.stack[o + i] = b
        else:
            s.heap.store(a, bs)

    def rd(self, s, op, w):
        k = op[0]
        if k == "r":
            i = 1 if op[3] else 0
            return s.r[op[1]][i:i + w]
        if k == "x":
            return s.x[op[1]][:w]
        if k == "imm":
            v = op[1]
            if isinstance(v, int):
                return bytes_of(K(w, v))
            return [(V(w, ("imm", v)), i) for i in range(w)]
        if k == "mem":
            return self.rdmem(s, self.addr(s, op), w)
        if k == "cl":
            return s.r[RCX][:1]
        if k == "lab":
            return self.label_value(op)
        raise Unsupported("operand %s" % (op,))

    def label_value(self, op):
        if op[2] == "table":                 # content of the address table: the absolute address
            return bytes_of(self.sym_addr(op[1]))
        raise Unsupported("label operand")

    def sym_addr(self, lab):
        return V(8, ("sym", self.names[lab]) if lab in self.names else ("lab", lab))

    def val(self, s, op, w):
        return mk(self.rd(s, op, w))

    def wr(self, s, op, bs, keep=False):
        k, w = op[0], len(bs)
        if k == "r":
            if op[3]:
                s.r[op[1]][1] = bs[0]
            elif w == 4:
                s.r[op[1]] = list(bs) + [0] * 4
            else:
                s.r[op[1]][:w] = list(bs)
            if op[1] == RSP:
                o = s.rsp()
                if o > 8:
                    raise Bad("stack", "stack pointer above the entry position")
                for q in [q for q in s.stack if q < o]:
                    del s.stack[q]
        elif k == "x":
            s.x[op[1]][:w] = list(bs)
            if not keep:
                s.x[op[1]][w:] = [0] * (16 - w)
        elif k == "mem":
            self.wrmem(s, self.addr(s, op), list(bs))
        else:
            raise Unsupported("store to %s" % (op,))

    def wrt(self, s, op, t):
        self.wr(s, op, bytes_of(t))

    # ---- flags
    def flag(self, s, f):
        if f[0] == "!":
            return NOT(self.flag(s, f[1:]))
        fl = s.flags
        if fl is None:
            raise Bad("flags", "condition code used without a preceding comparison")
        k = fl[0]
        if k == "fcmp":
            _, a, b = fl
            r = {"c": lambda: NOT(FC("fle", b, a)), "z": lambda: FC("fequn", a, b), "be": lambda: NOT(FC("flt", b, a)),
                 "p": lambda: NOT(FC("ford", a, b)), "l": lambda: False, "s": lambda: False, "o": lambda: False}.get(f)
            if f == "le":
                return FC("fequn", a, b)
            return r()
        if k == "cmp":
            _, a, b = fl
            r = {"z": lambda: EQ(a, b), "c": lambda: ULT(a, b), "be": lambda: NOT(ULT(b, a)), "l": lambda: SLT(a, b),
                 "le": lambda: NOT(SLT(b, a))}.get(f)
            if f == "s":
                d = SUB(a, b)
                return SLT(d, K(d[1], 0))
        else:                                # ("res", t): logical result, carry and overflow clear
            t = fl[1]
            z = K(t[1], 0)
            c = fl[2] if len(fl) > 2 else False
            r = {"z": lambda: EQ(t, z), "s": lambda: SLT(t, z)}.get(f)
            if c is False:
                r = r or {"c": lambda: False, "o": lambda: False, "be": lambda: EQ(t, z), "l": lambda: SLT(t, z),
                          "le": lambda: OR(SLT(t, z), EQ(t, z))}.get(f)
        if r is None:
            raise Unsupported("flag %s after %s" % (f, k))
        return r()

    def decide(self, s, c):
        if c is True or c is False:
            return c
        n = NOT(c)
        if c in s.pc:
            return s.pc[c]
        if n in s.pc:
            return not s.pc[n]
        if c[0] == "and":
            a, b = self.decide(s, c[1]), self.decide(s, c[2])
            if a is False or b is False:
                return False
            if a and b:
                return True
        return None

    # ---- execution
    def run(self, entry, init):
        done = []
        work = [init]
        init.ip = self.at[entry]
        while work:
            s = work.pop()
            try:
                nxt = self.path(s)
            except Bad as b:
                s.bad.append(b.args)
                s.out = s.out or ("bad",)
                nxt = []
            if s.out is not None:
                done.append(s)
            work += nxt
            if len(done) + len(work) > self.max_paths:
                raise Unsupported("too many partitions")
        return done

    def path(self, s):
        while s.out is None:
            if s.ip >= len(self.code):
                raise Bad("control", "control runs off the end of the function")
            e = self.code[s.ip]
            s.ip += 1
            if e[0] == "label":
                if e[1] in self.names and e[1] != self.entry_label and e[1] in self.stream.globals:
                    raise Bad("control", "control falls into another function")
                n = s.visits.get(e[1], 0) + 1
                s.visits[e[1]] = n
                if n > self.max_visits:
                    s.out = ("cut",)
                continue
            self.count += 1
            self.cur = e
            m, ops = e[1], e[2]
            if m in ("jmpq",):
                self.jump(s, ops[0])
                continue
            if m[0] == "j" and m[1:] in CC:
                c = self.flag(s, CC[m[1:]])
                d = self.decide(s, c)
                if d is None:
                    t = s.fork()
                    t.pc[c] = True
                    self.jump(t, ops[0])
                    s.pc[c] = False
                    return [t, s]
                if d:
                    self.jump(s, ops[0])
                continue
            f = getattr(self, "i_" + m, None) or self.generic(m)
            if f is None:
                raise Unsupported("instruction %s" % m)
            f(s, *ops)
        return []

    def jump(self, s, op):
        if op[0] != "lab" or op[1] not in self.at or op[2] == "table":
            raise Bad("control", "jump to %s, which is not a label of this function" % (self.names.get(op[1], op[1]) if op[0] == "lab" else op,))
        s.ip = self.at[op[1]]

    def generic(self, m):
        if m.startswith("set") and m[3:] in CC:
            return lambda s, d: self.wrt(s, d, BOOL(self.flag(s, CC[m[3:]])))
        if m[-1] in W:
            f = getattr(self, "w_" + m[:-1], None)
            if f is not None:
                return lambda s, *ops: f(s, W[m[-1]], *ops)
        if m[-2:] in ("ss", "sd"):
            w = 4 if m[-1] == "s" else 8
            n = {"add": "fadd", "sub": "fsub", "mul": "fmul", "div": "fdiv", "min": "fmin_sse", "max": "fmax_sse"}.get(m[:-2])
            if n:
                return lambda s, d, a: self.wr(s, d, bytes_of(OP(w, n, self.val(s, d, w), self.val(s, a, w))), keep=True)
            if m[:-2] == "sqrt":
                return lambda s, d, a: self.wr(s, d, bytes_of(OP(w, "sqrt", self.val(s, a, w))), keep=True)
            if m[:-2] in ("comi", "ucomi"):
                def f(s, a, b):
                    s.flags = ("fcmp", self.val(s, a, w), self.val(s, b, w))
                return f
        return None

    # moves
    def w_mov(self, s, w, d, a):
        if a[0] == "lab" and a[2] == "direct" or d[0] == "lab":
            return self.mov_label(s, w, d, a)
        self.wr(s, d, self.rd(s, a, w))

    def mov_label(self, s, w, d, a):
        if a[0] == "lab":                    # the content of the labelled location
            r = self.stream.rodata_at(a[1], w)
            if r is None:
                raise Bad("data", "load from label %s, which is no constant data of this object" % self.names.get(a[1], a[1]))
            self.wr(s, d, r)
            return
        raise Bad("data", "store to a label")

    def i_movd(self, s, d, a):
        self.wr(s, d, self.rd(s, a, 4))

    def i_movss(self, s, d, a, w=4):
        self.wr(s, d, self.rd(s, a, w), keep=d[0] == "x" and a[0] == "x")

    def i_movsd(self, s, d, a):
        self.i_movss(s, d, a, 8)

    def i_movaps(self, s, d, a):
        self.wr(s, d, self.rd(s, a, 16))

    i_movapd = i_movups = i_movupd = i_movdqa = i_movdqu = i_movaps

    def mx(self, s, d, a, wd, wa, f):
        self.wrt(s, d, f(self.val(s, a, wa), wd))

    def i_movzbw(self, s, d, a): self.mx(s, d, a, 2, 1, zx)
    def i_movzbl(self, s, d, a): self.mx(s, d, a, 4, 1, zx)
    def i_movzbq(self, s, d, a): self.mx(s, d, a, 8, 1, zx)
    def i_movzwl(self, s, d, a): self.mx(s, d, a, 4, 2, zx)
    def i_movzwq(self, s, d, a): self.mx(s, d, a, 8, 2, zx)
    def i_movsbw(self, s, d, a): self.mx(s, d, a, 2, 1, sx)
    def i_movsbl(self, s, d, a): self.mx(s, d, a, 4, 1, sx)
    def i_movsbq(self, s, d, a): self.mx(s, d, a, 8, 1, sx)
    def i_movswl(self, s, d, a): self.mx(s, d, a, 4, 2, sx)
    def i_movswq(self, s, d, a): self.mx(s, d, a, 8, 2, sx)
    def i_movslq(self, s, d, a): self.mx(s, d, a, 8, 4, sx)

    def acc(self, s, wd, wa, dst):
        t = sx(mk(s.r[RAX][:wa]), wd)
        bs = bytes_of(t)
        self.wr(s, ("r", dst, wd, False), bs)

    def i_cbtw(self, s): self.acc(s, 2, 1, RAX)
    def i_cwtl(self, s): self.acc(s, 4, 2, RAX)
    def i_cltq(self, s): self.acc(s, 8, 4, RAX)

    def hi(self, s, w):
        self.wr(s, ("r", RDX, w, False), [signbyte(mk(s.r[RAX][:w]))] * w)

    def i_cwtd(self, s): self.hi(s, 2)
    def i_cltd(self, s): self.hi(s, 4)
    def i_cqto(self, s): self.hi(s, 8)

    def i_leaq(self, s, d, a):
        if a[0] == "lab":
            self.wrt(s, d, self.sym_addr(a[1]))
        else:
            self.wrt(s, d, self.addr(s, a))

    def i_leal(self, s, d, a):
        self.wrt(s, d, trunc(self.addr(s, a), 4))

    def w_push(self, s, w, a):
        if w != 8:
            raise Unsupported("pushw")
        bs = self.rd(s, a, 8)
        self.wrt(s, ("r", RSP, 8, False), ADD(s.reg(RSP), K(8, -8)))
        self.wrmem(s, s.reg(RSP), bs)

    def w_pop(self, s, w, d):
        if w != 8:
            raise Unsupported("popw")
        o = s.rsp()
        if o >= 0:
            raise Bad("stack", "pop takes the return address")
        bs = self.rdmem(s, s.reg(RSP), 8)
        self.wrt(s, ("r", RSP, 8, False), ADD(s.reg(RSP), K(8, 8)))
        self.wr(s, d, bs)

    def i_leaveq(self, s):
        self.wr(s, ("r", RSP, 8, False), list(s.r[RBP]))
        self.w_pop(s, 8, ("r", RBP, 8, False))

    def w_xchg(self, s, w, a, b):
        x, y = list(self.rd(s, a, w)), list(self.rd(s, b, w))
        self.wr(s, a, y)
        self.wr(s, b, x)

    # arithmetic
    def arith(self, s, w, d, a, f, flags):
        x, y = self.val(s, d, w), self.val(s, a, w)
        t = f(x, y)
        s.flags = ("cmp", x, y) if flags == "cmp" else (("res", t) if flags == "log" else ("res", t, None))
        self.wrt(s, d, t)

    def w_add(self, s, w, d, a): self.arith(s, w, d, a, ADD, "add")
    def w_sub(self, s, w, d, a): self.arith(s, w, d, a, SUB, "cmp")

    def logic(self, s, w, d, a, f):
        if f is BXOR and d == a:
            self.wr(s, d, [0] * w)
            s.flags = ("res", K(w, 0))
            return
        self.arith(s, w, d, a, f, "log")

    def w_and(self, s, w, d, a): self.logic(s, w, d, a, BAND)
    def w_or(self, s, w, d, a): self.logic(s, w, d, a, BOR)
    def w_xor(self, s, w, d, a): self.logic(s, w, d, a, BXOR)

    def w_cmp(self, s, w, a, b): s.flags = ("cmp", self.val(s, a, w), self.val(s, b, w))
    def w_test(self, s, w, a, b): s.flags = ("res", BAND(self.val(s, a, w), self.val(s, b, w)))

    def w_not(self, s, w, d): self.wrt(s, d, BXOR(self.val(s, d, w), K(w, -1)))

    def w_neg(self, s, w, d):
        t = NEG(self.val(s, d, w))
        s.flags = ("res", t, None)
        self.wrt(s, d, t)

    def w_inc(self, s, w, d, k=1):
        t = ADD(self.val(s, d, w), K(w, k))
        s.flags = ("res", t, None)
        self.wrt(s, d, t)

    def w_dec(self, s, w, d): self.w_inc(s, w, d, -1)

    def shift(self, s, w, d, c, name):
        s.flags = None
        self.wrt(s, d, SHIFT(name, self.val(s, d, w), self.val(s, c, 1) if c is not None else K(1, 1)))

    def w_shl(self, s, w, d, c=None): self.shift(s, w, d, c, "shl")
    def w_sal(self, s, w, d, c=None): self.shift(s, w, d, c, "shl")
    def w_shr(self, s, w, d, c=None): self.shift(s, w, d, c, "lshr")
    def w_sar(self, s, w, d, c=None): self.shift(s, w, d, c, "ashr")

    def wmul(self, s, w, a, name):
        x, y = mk(s.r[RAX][:w]), self.val(s, a, w)
        lo = bytes_of(MUL(x, y))
        hi = bytes_of(OP(w, name, *sorted((x, y), key=repr)))
        s.flags = None
        if w == 1:
            self.wr(s, ("r", RAX, 2, False), lo + hi)
        else:
            self.wr(s, ("r", RAX, w, False), lo)
            self.wr(s, ("r", RDX, w, False), hi)

    def w_mul(self, s, w, a): self.wmul(s, w, a, "umulhi")

    def imul1(self, s, w, a): self.wmul(s, w, a, "smulhi")

    def i_imulw1(self, s, a): self.imul1(s, 2, a)
    def i_imull1(self, s, a): self.imul1(s, 4, a)
    def i_imulq1(self, s, a): self.imul1(s, 8, a)

    def imul2(self, s, w, d, a):
        s.flags = None
        self.wrt(s, d, MUL(self.val(s, d, w), self.val(s, a, w)))

    def i_imulw2(self, s, d, a): self.imul2(s, 2, d, a)
    def i_imull2(self, s, d, a): self.imul2(s, 4, d, a)
    def i_imulq2(self, s, d, a): self.imul2(s, 8, d, a)

    def w_imul(self, s, w, *ops):
        if len(ops) == 1:
            return self.imul1(s, w, ops[0])
        s.flags = None
        self.wrt(s, ops[0], MUL(self.val(s, ops[1], w), self.val(s, ops[2], w)))

    def wdiv(self, s, w, a, signed):
        y = self.val(s, a, w)
        if w == 1:
            lo, hi = s.r[RAX][:1], s.r[RAX][1:2]
        else:
            lo, hi = s.r[RAX][:w], s.r[RDX][:w]
        x = mk(lo)
        if signed and list(hi) == [signbyte(x)] * w:
            q, r = OP(w, "sdiv", x, y), OP(w, "srem", x, y)
        elif not signed and list(hi) == [0] * w:
            q, r = OP(w, "udiv", x, y), OP(w, "urem", x, y)
        else:
            d = mk(list(lo) + list(hi))
            q, r = OP(w, "divx", d, y, V(1, "s" if signed else "u")), OP(w, "remx", d, y, V(1, "s" if signed else "u"))
        s.flags = None
        if w == 1:
            self.wr(s, ("r", RAX, 2, False), bytes_of(q) + bytes_of(r))
        else:
            self.wr(s, ("r", RAX, w, False), bytes_of(q))
            self.wr(s, ("r", RDX, w, False), bytes_of(r))

    def w_idiv(self, s, w, a): self.wdiv(s, w, a, True)
    def w_div(self, s, w, a): self.wdiv(s, w, a, False)

    def w_popcnt(self, s, w, d, a):
        s.flags = None
        self.wrt(s, d, POPCNT(self.val(s, a, w), w))

    def w_btc(self, s, w, d, a):
        if a[0] != "imm" or not isinstance(a[1], int):
            raise Unsupported("btc")
        s.flags = None
        self.wrt(s, d, BXOR(self.val(s, d, w), K(w, 1 << (a[1] % (8 * w)))))

    # sse
    def i_pxor(self, s, d, a):
        if d == a:
            self.wr(s, d, [0] * 16)
        else:
            self.wr(s, d, bytes_of(BXOR(mk(s.x[d[1]][:8]), mk(self.rd(s, a, 16)[:8]))) + s.junk(8))

    i_xorps = i_xorpd = i_pxor

    def cvt_if(self, s, d, a, wf, wi):
        self.wr(s, d, bytes_of(ITOF(wf, self.val(s, a, wi))), keep=True)

    def i_cvtsi2ssl(self, s, d, a): self.cvt_if(s, d, a, 4, 4)
    def i_cvtsi2ssq(self, s, d, a): self.cvt_if(s, d, a, 4, 8)
    def i_cvtsi2sdl(self, s, d, a): self.cvt_if(s, d, a, 8, 4)
    def i_cvtsi2sdq(self, s, d, a): self.cvt_if(s, d, a, 8, 8)

    def cvt_fi(self, s, d, a, wf, name):
        w = d[2]
        self.wrt(s, d, OP(w, name, self.val(s, a, wf)))

    def i_cvttss2si(self, s, d, a): self.cvt_fi(s, d, a, 4, "ftoi")
    def i_cvttsd2si(self, s, d, a): self.cvt_fi(s, d, a, 8, "ftoi")
    def i_cvtss2si(self, s, d, a): self.cvt_fi(s, d, a, 4, "ftoi_round")
    def i_cvtsd2si(self, s, d, a): self.cvt_fi(s, d, a, 8, "ftoi_round")

    def i_cvtsd2ss(self, s, d, a): self.wr(s, d, bytes_of(OP(4, "ftrunc", self.val(s, a, 8))), keep=True)
    def i_cvtss2sd(self, s, d, a): self.wr(s, d, bytes_of(OP(8, "fext", self.val(s, a, 4))), keep=True)

    # control
    def i_callq(self, s, op):
        o = s.rsp()
        if o % 16 != 8:                       # the entry stack pointer is 8 modulo 16
            s.bad.append(("align", "call with a misaligned stack (entry%+d)" % o))
        if op[0] == "lab":
            self.on_call(self, s, ("sym", self.names.get(op[1], "label %d" % op[1])))
        else:
            self.on_call(self, s, ("ind", self.val(s, op, 8)))

    def clobber(self, s, out_args=0):
        """what any callee may overwrite: caller-saved registers, memory below rsp, and its stack arguments"""
        o = s.rsp()
        for i in range(16):
            if i not in CALLEE_SAVED and i != RSP:
                s.r[i] = s.junk(8, "clob")
        for i in range(16):
            s.x[i] = s.junk(16, "clobx")
        for q in [q for q in s.stack if q < o + out_args]:
            del s.stack[q]
        s.flags = None

    def i_retq(self, s):
        o = s.rsp()
        if o != 0:
            raise Bad("stack", "return with the stack pointer at entry%+d" % o)
        for i in CALLEE_SAVED:
            if s.reg(i) != V(8, GP[i]):
                s.bad.append(("saved", "%s is not restored at return" % GP[i]))
        s.out = ("ret",)
