"""Operand encoding of the assembler: ModRM / SIB / displacement / REX, decided against the architecture's decoding rules."""
from facts import Mir
from absint import *

LEVEL = "other"
ENC = "xten::asm::encoding::"
OPD = "xten::asm::operand::"
SCALES = {"Scale1": 1, "Scale2": 2, "Scale4": 4, "Scale8": 8}
R64 = "Rax Rcx Rdx Rbx Rsp Rbp Rsi Rdi R8 R9 R10 R11 R12 R13 R14 R15".split()
R32 = "Eax Ecx Edx Ebx Esp Ebp Esi Edi R8D R9D R10D R11D R12D R13D R14D R15D".split()
R16 = "Ax Cx Dx Bx Sp Bp Si Di R8W R9W R10W R11W R12W R13W R14W R15W".split()
R8 = "Al Cl Dl Bl Spl Bpl Sil Dil R8B R9B R10B R11B R12B R13B R14B R15B".split()
R8H = "Ah Ch Dh Bh".split()
XMM = ["Xmm%d" % i for i in range(16)]


def regnum(cls, name):
    """(number 0..15, needs REX, excludes REX) by the architecture manual"""
    if cls == "Gpr64": return R64.index(name), False, False
    if cls == "Gpr32": return R32.index(name), False, False
    if cls == "Gpr16": return R16.index(name), False, False
    if cls == "Xmm": return XMM.index(name), False, False
    if name in R8H: return 4 + R8H.index(name), False, True
    return R8.index(name), name in ("Spl", "Bpl", "Sil", "Dil"), False


def hooks(e, st, c):
    d = strip_generics(c.d)
    if d.endswith("::from_slice") and "heapless" in d:
        return [(st, ok(e.through(st, c.args[0])))]
    return None


class Run:
    def __init__(self, mir):
        self.mir = mir
        self.fns = set()

    def call(self, path, args, targs=()):
        """-> ("val", v) | ("panic", why) | ("?", why) | ("multi", [...])"""
        e = Engine(self.mir, hooks)
        st = State()
        f = self.mir.fns.get(path)
        if f is None:
            return ("?", "function %s not found" % path)
        args = [e.new_cell(st, a) if self.mir.ty(f["crate"], f["locals"][i + 1][0])[0] == "ref" and a[0] != "ref" else a for i, a in enumerate(args)]
        rs = e.call_fn(st, path, args, targs)
        self.fns |= e.analysed
        if e.cuts:
            return ("?", "analysis cut")
        if len(rs) == 1 and not e.panics:
            return ("val", e.snap(rs[0][0], rs[0][1]))
        if not rs and e.panics:
            return ("panic", e.panics[0][2])
        return ("?", "%d outcomes, %d panics" % (len(rs), len(e.panics)))

    def into(self, src_ty, dst, v):
        return self.via("std::convert::From", "from", (("adt", dst, ()), src_ty), [v])

    def via(self, tr, m, targs, args):
        e = Engine(self.mir, hooks)
        st = State()
        rs = e.call_path(st, tr + "::" + m, targs, args, ("?",), 0, tr=tr, m=m)
        self.fns |= e.analysed
        if e.cuts:
            return ("?", "analysis cut")
        if len(rs) == 1 and not e.panics:
            return ("val", e.snap(rs[0][0], rs[0][1]))
        if not rs and e.panics:
            return ("panic", e.panics[0][2])
        return ("?", "%d outcomes, %d panics" % (len(rs), len(e.panics)))

    def modrm_bytes(self, modrm, w):
        """(rex|None, modrm byte, sib|None, disp list|None) as known values, or a refusal"""
        out = []
        for fn, args in (("rex_byte", [modrm, B(w)]), ("byte", [modrm]), ("sib_byte", [modrm]), ("disp_bytes", [modrm])):
            k, v = self.call(ENC + "ModRM::" + fn, args)
            if k != "val":
                return (k, "%s: %s" % (fn, v))
            if fn != "byte":
                if v[0] != "adt":
                    return ("?", "%s is not decided: %s" % (fn, show(v)))
                v = v[4][0] if v[3] == "Some" else None
            if fn == "disp_bytes":
                v = () if v is None else v[1] if v[0] == "arr" else ("?",)
            elif v is not None:
                if v[0] != "i":
                    return ("?", "%s is not constant: %s" % (fn, show(v)))
                v = v[1]
            out.append(v)
        return ("val", tuple(out))


def decode(rex, modrm, sib, disp):
    """Architectural decoding -> (reg, rm) with rm = ("reg", n) | ("mem", base, index, scale, nbytes, mode)"""
    R = (rex >> 2) & 1 if rex else 0
    X = (rex >> 1) & 1 if rex else 0
    Bb = rex & 1 if rex else 0
    mod, reg, rm = modrm >> 6, (modrm >> 3) & 7, modrm & 7
    reg |= R << 3
    if mod == 3:
        return reg, ("reg", rm | Bb << 3), sib is None and disp == 0
    base = index = None
    scale = 1
    rip = False
    need = {0: 0, 1: 1, 2: 4}[mod]
    if rm == 4:
        if sib is None:
            return reg, "missing SIB", False
        scale = 1 << (sib >> 6)
        ix = ((sib >> 3) & 7) | X << 3
        index = None if ix == 4 else ix
        b = sib & 7
        if b == 5 and mod == 0:
            base, need = None, 4
        else:
            base = b | Bb << 3
        okay = True
    else:
        okay = sib is None
        if rm == 5 and mod == 0:
            rip, need = True, 4
        else:
            base = rm | Bb << 3
    if index is None:
        scale = 1
    return reg, ("mem", "rip" if rip else base, index, scale), okay and disp == need


def regval(cls, name, mir):
    p = OPD + cls
    vs = [x["n"] for x in mir.adts[p]["variants"]]
    return ("adt", p, vs.index(name), name, ())


def ty(cls):
    return ("adt", OPD + cls, ())


def disp_value(disp):
    """symbolic/constant little-endian value of the displacement bytes -> ("const", v) | ("sym", name) | None"""
    if not disp:
        return ("const", 0)
    if all(b[0] == "i" for b in disp):
        v = sum((b[1] & 0xff) << (8 * i) for i, b in enumerate(disp))
        n = 8 * len(disp)
        return ("const", v - (1 << n) if v >> (n - 1) else v)
    if all(b[0] == "app" and b[1] == "byte%d" % i for i, b in enumerate(disp)) and len({b[2] for b in disp}) == 1:
        v = disp[0][2][0]
        if v[0] == "sym":
            return ("sym", v[1])
    return None


def check(ck):
    ck.rule("For every register of every class as reg, rm or opcode register, and every base/index/scale/displacement form of a memory operand, the ModRM, SIB, displacement and REX bits computed by constant propagation through the conversions must decode, by the architecture's rules, to exactly the requested operand; REX is emitted exactly when needed and combinations that cannot be encoded are refused.")
    mir = Mir(["xten"])
    R = Run(mir)
    classes = {}
    for cls, exp in (("Gpr64", R64), ("Gpr32", R32), ("Gpr16", R16), ("Gpr8", R8 + R8H), ("Xmm", XMM)):
        a = mir.adts.get(OPD + cls)
        if not ck.oblige(a is not None, "class:" + cls, "register class %s not found" % cls):
            return
        names = [v["n"] for v in a["variants"]]
        classes[cls] = [n for n in names if n in exp]
        ck.oblige(sorted(names) == sorted(exp), "class:" + cls, "%s:%d registers of %s are %s" % (a.get("file", ""), a.get("line", 0), cls, names))
    modrm_new = ENC + "ModRM::new"

    def mk(regc, reg, rmt, rm):
        return R.call(modrm_new, [reg, rm], (regc, rmt))

    def judge(key, what, k, m, w, want_reg, want_rm, need, deny, want_disp=("const", 0)):
        """want_rm: ("reg", n) or ("mem", base, index, scale)"""
        ck.count("operand combinations")
        hi = w or (want_reg >= 8 and want_reg != "digit") or (want_rm[0] == "reg" and want_rm[1] >= 8) or \
            (want_rm[0] == "mem" and any(isinstance(x, int) and x >= 8 for x in want_rm[1:3]))
        if k == "val":
            k, m = R.modrm_bytes(m, w)
        if deny and (hi or need):
            ck.oblige(k == "panic", key, "%s: a REX prefix is needed but AH..BH cannot be encoded with one; got %s %s instead of a refusal" % (what, k, m))
            return
        if not ck.oblige(k == "val", key, "%s: not encodable: %s %s" % (what, k, m)):
            return
        rex, byte, sib, disp = m
        reg, rm, okay = decode(rex, byte, sib, len(disp))
        want_rex = hi or need
        good = reg == want_reg and rm == want_rm and okay and (rex is not None) == want_rex
        if rex is not None:
            good = good and rex >> 4 == 4 and bool(rex & 8) == w
        ck.oblige(good, key, "%s: REX=%s ModRM=%02x SIB=%s disp bytes=%d decode to reg=%s rm=%s; wanted reg=%s rm=%s REX %s"
                  % (what, rex and hex(rex), byte, sib if sib is None else hex(sib), len(disp), reg, rm, want_reg, want_rm, "present" if want_rex else "absent"))
        dv = disp_value(disp)
        ck.oblige(dv == want_disp, key + ":disp", "%s: displacement bytes are %s, wanted %s" % (what, [show(x) for x in disp], want_disp))

    # registers in reg and rm position
    for ca, na in classes.items():
        for n in na:
            num, need, deny = regnum(ca, n)
            v = regval(ca, n, mir)
            for w in (False, True):
                k, m = mk(ty(ca), v, ty("Gpr64"), regval("Gpr64", "Rdx", mir))
                judge("reg:%s:%d" % (n, w), "%s in reg (REX.W=%d)" % (n, w), k, m, w, num, ("reg", 2), need, deny)
                k, m = mk(ty("Gpr64"), regval("Gpr64", "Rbx", mir), ty(ca), v)
                judge("rm:%s:%d" % (n, w), "%s in rm (REX.W=%d)" % (n, w), k, m, w, 3, ("reg", num), need, deny)
            # register in opcode
            kk, rr = R.into(ty(ca), ENC + "RegInOpcode", v)
            ck.count("opcode registers")
            if ck.oblige(kk == "val", "riop:" + n, "%s as opcode register: %s %s" % (n, kk, rr)):
                fields = mir.adts[ENC + "RegInOpcode"]["variants"][0]["fields"]
                fi = [f["n"] for f in fields].index("byte_added_to_opcode")
                add = rr[4][fi]
                for w in (False, True):
                    k, x = R.call(ENC + "RegInOpcode::rex_byte", [rr, B(w)])
                    want = need or w or num >= 8
                    if deny and want:
                        ck.oblige(k == "panic", "riop:%s:%d" % (n, w), "%s in the opcode with REX.W must be refused, got %s" % (n, k))
                    else:
                        exp = ("val", some(("i", 0x40 | (8 if w else 0) | (num >> 3), "u8"))) if want else ("val", NONE)
                        ck.oblige((k, x) == exp and add == ("i", num & 7, "u8"), "riop:%s:%d" % (n, w),
                                  "%s in the opcode: adds %s with REX %s %s, wanted %d with %s" % (n, show(add), k, show(x) if k == "val" else x, num & 7, show(exp[1])))
    # 8-bit pairs (REX required/excluded conflicts), and reg/rm extension bits together
    for a in classes["Gpr8"]:
        for b in classes["Gpr8"]:
            na, nea, dea = regnum("Gpr8", a)
            nb, neb, deb = regnum("Gpr8", b)
            k, m = mk(ty("Gpr8"), regval("Gpr8", a, mir), ty("Gpr8"), regval("Gpr8", b, mir))
            judge("pair:%s,%s" % (a, b), "%s, %s" % (a, b), k, m, False, na, ("reg", nb), nea or neb, dea or deb)
    # /digit
    for d in range(8):
        k, m = mk(("adt", ENC + "PartOfOpcode", ()), ("adt", ENC + "PartOfOpcode", 0, "", (("i", d, "u8"),)), ty("Gpr64"), regval("Gpr64", "R9", mir))
        judge("digit:%d" % d, "/%d" % d, k, m, False, d, ("reg", 9), False, False)

    # memory operands
    ADDR, EA, MEM = OPD + "Address", OPD + "EncodedAddress", OPD + "Memory"
    IS = OPD + "IndexScale"
    forms = []
    for im in mir.impl_by_trait.get("std::convert::From", ()):
        if im["selfty"] == ("adt", EA, ()):
            forms.append(im["trargs"][1])
    ck.count("address conversions", len(forms))
    ck.floor("address conversions", 11)
    scales = [v["n"] for v in mir.adts[ENC + "Scale"]["variants"]]
    ck.oblige(sorted(scales) == sorted(SCALES), "scales", "scales are %s" % scales)
    isf = [f["n"] for f in mir.adts[IS]["variants"][0]["fields"]]
    adf = [f["n"] for f in mir.adts[ADDR]["variants"][0]["fields"]]
    I32, I8, U = ("prim", "i32"), ("prim", "i8"), ("tuple", ())
    G, RIP, IST = ty("Gpr64"), ty("Rip"), ("adt", IS, ())

    def idx(name, sc):
        f = {"index": regval("Gpr64", name, mir), "scale": ("adt", ENC + "Scale", scales.index(sc), sc, ())}
        return ("adt", IS, 0, "", tuple(f[x] for x in isf))

    def addr(base, disp, ix):
        f = {"base": base, "disp": disp, "idxs": ix}
        return ("adt", ADDR, 0, "", tuple(f[x] for x in adf))

    def judge_mem(key, what, t, a, base, index, scale, disp, regn="Rbx"):
        k, ea = R.into(t, EA, a)
        if ck.oblige(k == "val", key, "%s: not encodable: %s %s" % (what, k, ea)):
            mem = ("adt", MEM, 0, "", (ea,))
            k, m = mk(G, regval("Gpr64", regn, mir), ("adt", MEM, ()), mem)
            judge(key, what, k, m, False, R64.index(regn), ("mem", base, index, scale), False, False, disp)

    bases = [("Gpr64", n) for n in classes["Gpr64"]]
    full = True
    seen_forms = 0
    for dt, dn, dv, dw in ((U, "", UNIT, ("const", 0)), (I8, "+d8", ("sym", "d8", I8), ("sym", "d8")), (I32, "+d32", ("sym", "d32", I32), ("sym", "d32"))):
        for _, b in bases:
            bn = R64.index(b)
            judge_mem("mem:%s%s" % (b, dn), "[%s%s]" % (b, dn), ("adt", ADDR, (G, dt, U)), addr(regval("Gpr64", b, mir), dv, UNIT), bn, None, 1, dw, "R10" if bn % 2 else "Rbx")
            for i in classes["Gpr64"]:
                if i == "Rsp":
                    continue
                for sc in (scales if full else [scales[(bn + R64.index(i)) % 4], scales[(bn + R64.index(i) + 2) % 4]]):
                    judge_mem("mem:%s%s+%s*%s" % (b, dn, i, sc), "[%s%s+%s*%s]" % (b, dn, i, sc), ("adt", ADDR, (G, dt, IST)),
                              addr(regval("Gpr64", b, mir), dv, idx(i, sc)), bn, R64.index(i), SCALES[sc], dw)
    for i in classes["Gpr64"]:
        if i != "Rsp":
            for sc in scales:
                judge_mem("mem:d32+%s*%s" % (i, sc), "[d32+%s*%s]" % (i, sc), ("adt", ADDR, (U, I32, IST)), addr(UNIT, ("sym", "d32", I32), idx(i, sc)),
                          None, R64.index(i), SCALES[sc], ("sym", "d32"))
    ripv = ("adt", OPD + "Rip", 0, "", ())
    judge_mem("mem:rip+d32", "[rip+d32]", ("adt", ADDR, (RIP, I32, U)), addr(ripv, ("sym", "d32", I32), UNIT), "rip", None, 1, ("sym", "d32"))
    judge_mem("mem:rip", "[rip]", ("adt", ADDR, (RIP, U, U)), addr(ripv, UNIT, UNIT), "rip", None, 1, ("const", 0))
    for n in (0, 1, 0x7fffffff):
        judge_mem("mem:abs%d" % n, "[%d]" % n, ("adt", ADDR, (U, I32, U)), addr(UNIT, ("i", n, "i32"), UNIT), None, None, 1, ("const", n))
        judge_mem("mem:i32:%d" % n, "[%d] from i32" % n, I32, ("i", n, "i32"), None, None, 1, ("const", n))
    judge_mem("mem:from Gpr64", "[r13] from a register", G, regval("Gpr64", "R13", mir), 13, None, 1, ("const", 0))
    judge_mem("mem:from Rip", "[rip] from Rip", RIP, ripv, "rip", None, 1, ("const", 0))
    known = {I32, G, RIP}
    for b, d, x in ((U, I32, U), (U, I32, IST), (RIP, U, U), (RIP, I32, U), (G, U, U), (G, I32, U), (G, U, IST), (G, I32, IST)):
        known.add(("adt", ADDR, (b, d, x)))
    for t in forms:
        b = {}
        from facts import tmatch
        ck.oblige(any(tmatch(t, k, {}) for k in known), "form:%s" % (t,), "address conversion from %s has no reference rule" % (t,))

    # address arithmetic: each + / - / * must build the address its operands name
    def want_addr(base, disp, ix):
        return addr(base, disp, ix)
    d8, d32, e8, e32 = ("sym", "d", I8), ("sym", "d", I32), ("sym", "e", I8), ("sym", "e", I32)
    g, ix = ("sym", "base", G), ("sym", "ix", IST)

    def arith(op, lt, lv, rt, rv, want, what):
        ck.count("address operators")
        k, v = R.via("std::ops::" + op, op.lower(), (lt, rt), [lv, rv])
        ck.oblige(k == "val" and v in want, "op:" + what, "%s builds %s, wanted %s" % (what, show(v) if k == "val" else (k, v), show(want[0])))

    def plus(a, b, t): return [("app", "Add", (a, b), t), ("app", "Add", (b, a), t)]
    def minus(a, b, t): return [("app", "Sub", (a, b), t)]
    for bt, bv, dts in ((G, g, ((I8, d8, e8), (I32, d32, e32))), (RIP, ripv, ((I32, d32, e32),))):
        nb = "GP" if bt == G else "RIP"
        for dt, d, e2 in dts:
            for xt, xv in ((U, UNIT), (IST, ix)):
                A0, A1 = ("adt", ADDR, (bt, U, xt)), ("adt", ADDR, (bt, dt, xt))
                neg = ("app", "Neg", (d,), dt)
                arith("Add", A0, addr(bv, UNIT, xv), dt, d, [addr(bv, d, xv)], "[%s] + %s" % (nb, dt[1]))
                arith("Sub", A0, addr(bv, UNIT, xv), dt, d, [addr(bv, neg, xv)], "[%s] - %s" % (nb, dt[1]))
                arith("Add", A1, addr(bv, e2, xv), dt, d, [addr(bv, s, xv) for s in plus(e2, d, dt)], "[%s + %s] + disp" % (nb, dt[1]))
                arith("Sub", A1, addr(bv, e2, xv), dt, d, [addr(bv, s, xv) for s in minus(e2, d, dt)], "[%s + %s] - disp" % (nb, dt[1]))
            neg = ("app", "Neg", (d,), dt)
            arith("Add", bt, bv, dt, d, [addr(bv, d, UNIT)], "%s + %s" % (nb, dt[1]))
            arith("Sub", bt, bv, dt, d, [addr(bv, neg, UNIT)], "%s - %s" % (nb, dt[1]))
    s1 = ("adt", ENC + "Scale", scales.index("Scale1"), "Scale1", ())
    r = regval("Gpr64", "R14", mir)
    x1 = ("adt", IS, 0, "", tuple({"index": r, "scale": s1}[n] for n in isf))
    for bt, bv, dt, d in ((U, UNIT, I32, d32), (G, g, U, UNIT), (G, g, I8, d8), (G, g, I32, d32)):
        A = ("adt", ADDR, (bt, dt, U))
        arith("Add", A, addr(bv, d, UNIT), IST, ix, [addr(bv, d, ix)], "[..] + index*scale (%s,%s)" % (bt[1], dt[1]))
        arith("Add", A, addr(bv, d, UNIT), G, r, [addr(bv, d, x1)], "[..] + index (%s,%s)" % (bt[1], dt[1]))
    arith("Add", I32, d32, IST, ix, [addr(UNIT, d32, ix)], "disp + index*scale")
    arith("Add", I32, d32, G, r, [addr(UNIT, d32, x1)], "disp + index")
    arith("Add", G, g, IST, ix, [addr(g, UNIT, ix)], "GP + index*scale")
    arith("Add", G, g, G, r, [addr(g, UNIT, x1)], "GP + index")
    SC = ("adt", ENC + "Scale", ())
    for n in classes["Gpr64"]:
        for sc in scales:
            sv = ("adt", ENC + "Scale", scales.index(sc), sc, ())
            want = ("adt", IS, 0, "", tuple({"index": regval("Gpr64", n, mir), "scale": sv}[x] for x in isf))
            for rt, rv in ((SC, sv), (("prim", "u8"), ("i", SCALES[sc], "u8"))):
                k, v = R.via("std::ops::Mul", "mul", (G, rt), [regval("Gpr64", n, mir), rv])
                ck.count("address operators")
                if n == "Rsp":
                    ck.oblige(k == "panic", "mul:Rsp:" + sc, "rsp as an index register must be refused, got %s" % k)
                else:
                    ck.oblige(k == "val" and v == want, "mul:%s:%s" % (n, sc), "%s * %s gives %s" % (n, sc, show(v) if k == "val" else (k, v)))
    for bad in (0, 3, 5, 6, 7, 16, 255):
        k, v = R.via("std::ops::Mul", "mul", (G, ("prim", "u8")), [regval("Gpr64", "Rax", mir), ("i", bad, "u8")])
        ck.oblige(k == "panic", "mul:scale%d" % bad, "scale %d must be refused, got %s" % (bad, k))
    # sub-registers
    for m, cls, names in (("q", "Gpr64", R64), ("l", "Gpr32", R32), ("w", "Gpr16", R16), ("b", "Gpr8", R8)):
        for i, n in enumerate(R64):
            k, v = R.call(OPD + "Gpr64::" + m, [regval("Gpr64", n, mir)])
            ck.count("sub-register conversions")
            ck.oblige(k == "val" and v[0] == "adt" and v[1] == OPD + cls and v[3] == names[i], "sub:%s.%s" % (n, m),
                      "%s.%s() is %s, wanted %s" % (n, m, show(v) if k == "val" else (k, v), names[i]))
    ck.floor("operand combinations", 1600)
    ck.floor("address operators", 100)
    ck.floor("sub-register conversions", 64)
    ck.count("functions analysed", len(R.fns))
