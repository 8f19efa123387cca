"""Emission templates of xten0's instruction writers, from MIR."""
from facts import Mir, tstr
from absint import *

ENC = ("ModRM", "RegInOpcode")


def last2(p):
    q = strip_generics(p).split("::")
    return (q[-2], q[-1]) if len(q) > 1 else ("", q[-1])


def hooks(e, st, c):
    a, b = last2(c.path)
    if c.path.startswith("xten::") and a in ENC and b in ("rex_byte", "byte", "sib_byte", "disp_bytes") and c.path.startswith("xten::asm::encoding"):
        args = tuple(e.snap(st, e.through(st, x)) for x in c.args)
        t = ("app", "enc.%s.%s" % (a, b), args, ("prim", "u8"))
        if b == "byte":
            return [(st, t)]
        if b == "disp_bytes":
            return [(st, some(("arr", (t,))))]
        return [(st, some(t))]
    if c.tr in ("std::convert::Into", "std::convert::From"):
        dst = c.targs[1] if c.tr.endswith("Into") else c.targs[0]
        src = c.targs[0] if c.tr.endswith("Into") else c.targs[1]
        n = dst[1].split("::")[-1] if dst[0] == "adt" else ""
        if n in ("Reg", "Rm", "RegInOpcode") and dst != src:
            if not (src[0] == "adt" and src[1].split("::")[-1] in ("Reg", "Rm")):
                return [(st, ("app", "to." + n, (e.snap(st, c.args[0]),), dst))]
    if c.d == "std::io::Write::write_all":
        x = e.through(st, c.args[1])
        if x[0] == "arr":
            xs = x[1]
        elif x[0] == "b":
            xs = [("i", b, "u8") for b in x[1]]
        else:
            xs = [("app", "splice", (x,), ("?",))]
        for b in xs:
            st.emit("byte", b)
        return [(st, ok(UNIT))]
    return None


def opref(v):
    """operand k of self"""
    while v[0] == "app" and v[1] in ("*",):
        v = v[2][0]
    if v[0] == "sym" and v[1].startswith("self*."):
        try:
            return int(v[1][6:])
        except ValueError:
            return None
    return None


def regsrc(v):
    if v[0] == "app" and v[1] in ("to.Reg", "to.RegInOpcode"):
        x = v[2][0]
        k = opref(x)
        if k is not None:
            return ("op", k)
        if x[0] == "adt" and x[1].endswith("PartOfOpcode") and x[4][0][0] == "i":
            return ("digit", x[4][0][1])
    if v[0] == "adt" and v[1].endswith("::Reg") and all(f[0] == "i" for f in v[4][:2]):
        # a constant Reg value
        return ("digit", v[4][0][1] | (v[4][1][1] << 3))
    return ("?", show(v))


def rmsrc(v):
    if v[0] == "app" and v[1] == "to.Rm":
        k = opref(v[2][0])
        if k is not None:
            return ("op", k)
    if v[0] == "adt" and v[1].endswith("::Rm") and len(v[4]) > 1 and v[4][0] == ("i", 0, "u8") and v[4][1] == ("i", 0, "u8"):
        return ("zero",)
    return ("?", show(v))


def modrm_parts(v):
    if v[0] == "adt" and v[1].endswith("::ModRM"):
        return regsrc(v[4][0]), rmsrc(v[4][1])
    return ("?", show(v)), ("?", show(v))


def template(events):
    """canonical template of an emission, or (None, reason)"""
    pref, rex, op, tail = [], None, [], []
    phase = 0          # 0 prefixes, 1 opcode, 2 tail
    xs = [x[1] for x in events]
    i = 0
    modreg = modrm = None
    while i < len(xs):
        x = xs[i]
        if x[0] == "i":
            b = x[1]
            if phase == 0 and b in (0x66, 0xF2, 0xF3):
                pref.append(b)
            elif phase == 0 and 0x40 <= b <= 0x4F and rex is None:
                rex = ("fixed", bool(b & 8)) if b & 7 == 0 else ("?", b)
                phase = 1
            elif phase <= 1:
                op.append(b)
                phase = 1
            else:
                return None, "constant byte %#x after operands" % b
        elif x[0] == "app" and x[1].startswith("enc.") and x[1].endswith("rex_byte"):
            if rex is not None or phase != 0:
                return None, "REX prefix not immediately before the opcode"
            w = x[2][1]
            if w[0] != "i":
                return None, "REX.W is not constant"
            if x[1] == "enc.ModRM.rex_byte":
                rex = ("modrm", bool(w[1]))
                modreg = modrm_parts(x[2][0])
            else:
                rex = ("riop", bool(w[1]))
                modreg = regsrc(x[2][0])
            phase = 1
        elif x[0] == "app" and x[1] in ("Add", "BitOr") and any(is_added(y) for y in x[2]):
            base = [y for y in x[2] if y[0] == "i"]
            r = [y for y in x[2] if is_added(y)]
            if len(base) != 1 or phase > 1:
                return None, "malformed opcode+register byte"
            op.append(base[0][1])
            src = regsrc(r[0][2][0])
            if modreg != src:
                return None, "opcode register %s differs from the REX source %s" % (src, modreg)
            tail.append(("riop", src[1] if src[0] == "op" else src))
            phase = 2
        elif x[0] == "app" and x[1] == "enc.ModRM.byte":
            reg, rm = modrm_parts(x[2][0])
            if modreg != (reg, rm):
                return None, "ModRM byte of %s but REX of %s" % ((reg, rm), modreg)
            tail.append(("modrm", reg, rm))
            phase = 2
        elif x[0] == "app" and x[1] in ("enc.ModRM.sib_byte", "enc.ModRM.disp_bytes"):
            reg, rm = modrm_parts(x[2][0])
            tail.append(("sib" if "sib" in x[1] else "disp", rm))
            phase = 2
        elif x[0] == "app" and x[1] == "byte0":
            v = x[2][0]
            n = 1
            while i + n < len(xs) and xs[i + n][0] == "app" and xs[i + n][1] == "byte%d" % n and xs[i + n][2] == x[2]:
                n += 1
            k = opref(v)
            if k is None:
                return None, "immediate is not an operand: %s" % show(v)
            tail.append(("imm", k, n))
            i += n - 1
            phase = 2
        else:
            return None, "unrecognised emission %s" % show(x)
        i += 1
    return (tuple(sorted(pref)), rex, tuple(op), tuple(tail)), None


def is_added(y):
    return y[0] == "app" and y[1] == ".byte_added_to_opcode" and len(y[2]) == 1


def writers(mir):
    """[(struct name, operand classes, fn path)]"""
    out = []
    for im in mir.impl_by_trait.get("xten::asm::inst::WriteInst", ()):
        st = im["selfty"]
        name = st[1].split("::")[-1]
        ops = tuple(tstr(t) for t in st[2])
        f = [it["p"] for it in im["items"] if it["n"] == "write_inst"]
        out.append((name, ops, f[0], im))
    return out


def analyse(mir, path):
    f = mir.fns[path]
    e = Engine(mir, hooks)
    st = State()
    selft = mir.ty(f["crate"], f["locals"][1][0])
    rs = e.call_fn(st, path, [("sym", "self", selft), ("sym", "w", mir.ty(f["crate"], f["locals"][2][0]))])
    return rs, e
