"""Reference encodings, derived independently of xtencg from the instruction table shipped in /verif/ref/x86.csv.

key   = (mnemonic, (operand class, ...))       e.g. ("addl", ("Gpr32", "Memory"))
value = set of templates; a template is (frozenset of legacy prefixes in multiset form, rex, opcode bytes, tail)
  rex  : None | ("modrm", w) | ("riop", w) | ("fixed", w)
  tail : tuple of atoms: ("riop", k) ("modrm", reg, rm) ("sib", rm) ("disp", rm) ("imm", operand, bytes)
  reg  : ("op", k) | ("digit", n);  rm : ("op", k) | ("zero",)
"""
import os, re

CSV = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "ref", "x86.csv")
UNSUP = re.compile(r"^(INS|OUTS|LODS|SCAS|STOS|MOVS|CMPS|REP|LOOP|LOOPN|ENTER|LGDT|LIDT|LLDT|SLDT|SMSW|XLAT|LSL|LTR|LAR).?$")
EXC = re.compile(r"^(MOVSS|MOVSD|MOVSX|CMPSS|CMPSD)$")
UNSUP_OP = re.compile(r":|&|Sreg|moffs|FS|GS|DR|CR|^m8|^m16|^mm")

FIXED = {"AL": "_Al", "AX": "_Ax", "EAX": "_Eax", "RAX": "_Rax", "CL": "_Cl", "DX": "_Dx", "<XMM0>": "_Xmm0", "1": "_1", "3": "_3"}
GPR = {"r8": "Gpr8", "r16": "Gpr16", "r32": "Gpr32", "r64": "Gpr64", "reg": "Gpr64"}
IMM = {"8": ("i8", 1), "16": ("i16", 2), "32": ("i32", 4), "64": ("i64", 8)}


def op_classes(o):
    """-> (kind, [classes], is16)"""
    if o in FIXED:
        return "fixed", [FIXED[o]], o == "AX"
    if o in GPR:
        return "r", [GPR[o]], o == "r16"
    m = re.match(r"^(rel|imm)(8|16|32|64)$", o)
    if m:
        return m.group(1), [IMM[m.group(2)][0]], o == "imm16"
    m = re.match(r"^r/m(8|16|32|64)$", o)
    if m:
        return "rm", [GPR["r" + m.group(1)], "Memory"], o == "r/m16"
    m = re.match(r"^(r32|reg)/m(8|16|32)$", o)
    if m:
        return "rm", [GPR[m.group(1)], "Memory"], False
    if re.match(r"^m(32|64|128)?$", o):
        return "m", ["Memory"], False
    if re.match(r"^xmm[12]?$", o):
        return "xmm", ["Xmm"], False
    if re.match(r"^xmm[12]?/m\d+$", o):
        return "xmmm", ["Xmm", "Memory"], False
    return None


def rows(path=CSV):
    for line in open(path, encoding="utf-8"):
        c = line.rstrip("\n").split("\t")
        if len(c) < 15:
            continue
        opcode, instr, op_en, compat, flags, mnem, desc = (c[0].strip(), c[1].strip(), c[2], c[9].strip(), c[11].strip(), c[12].strip(), c[14].strip())
        if not opcode or not instr or compat != "V":
            continue
        if flags and not flags.startswith("SSE") and flags != "POPCNT":
            continue
        if re.search(r"Far +return", desc):
            continue
        w = instr.replace(",", " ").split()
        if UNSUP.match(w[0]) and not EXC.match(w[0]):
            continue
        if any(UNSUP_OP.search(o) for o in w[1:]):
            continue
        yield (mnem or w[0].lower()), w[1:], opcode.split(), op_en


NO66 = ("movswl", "movswq", "movzwl", "movzwq", "retq", "verr", "verw", "lmsw")


def build(path=CSV):
    table = {}
    for mnem, ops, opc, op_en in rows(path):
        cls = [op_classes(o) for o in ops]
        if any(c is None for c in cls):
            raise ValueError("unknown operand in %s %s" % (mnem, ops))
        # operand -> encoding position
        pos = {}
        for i, (kind, _, _) in enumerate(cls):
            h = op_en[i] if i < len(op_en) else None
            if kind == "fixed":
                continue
            if kind == "rel":
                pos["code"] = i
            elif kind == "imm":
                pos["imm"] = i
            elif kind == "r":
                pos[{"R": "reg", None: "reg", "M": "rm", "O": "riop"}[h]] = i
            elif kind == "xmm":
                pos[{"R": "reg", None: "reg", "M": "rm"}[h]] = i
            else:
                pos[{"R": "reg", "M": "rm", None: "rm"}[h]] = i
        # opcode string
        pref, rexw, rex, body, digit, modrm, imm, code, riop = [], False, False, [], None, False, None, None, False
        for u in opc:
            if u in ("REX+", "REX.W+"):
                rex = True
                rexw = u == "REX.W+"
            elif u == "PREF.66+":
                pref.append(0x66)
            elif re.match(r"^/[0-7]$", u):
                digit, modrm = int(u[1]), True
            elif u == "/r":
                modrm = True
            elif re.match(r"^i[bwdo]$", u):
                imm = {"b": 1, "w": 2, "d": 4, "o": 8}[u[1]]
            elif re.match(r"^c[bwdo]$", u):
                code = {"b": 1, "w": 2, "d": 4, "o": 8}[u[1]]
            elif re.match(r"^\+r[bwdo]$", u):
                riop = True
            elif re.match(r"^[0-9A-Fa-f]{2}$", u):
                b = int(u, 16)
                if not body and not rex and b in (0x66, 0xF2, 0xF3):
                    pref.append(b)
                else:
                    body.append(b)
            else:
                raise ValueError("unknown opcode unit %s in %s" % (u, mnem))
        if any(c[2] for c in cls) and mnem not in NO66 and 0x66 not in pref:
            pref.append(0x66)
        if not modrm and ("rm" in pos or "reg" in pos):
            modrm = True
        if imm is None and "imm" in pos:
            imm = IMM[cls[pos["imm"]][1][0][1:]][1]
        tail = []
        if riop:
            tail.append(("riop", pos["riop"]))
        if code is not None:
            tail.append(("imm", pos["code"], code))
        if modrm:
            reg = ("digit", digit) if digit is not None else ("op", pos["reg"]) if "reg" in pos else ("digit", 0)
            rm = ("op", pos["rm"]) if "rm" in pos else ("zero",)
            tail += [("modrm", reg, rm), ("sib", rm), ("disp", rm)]
        if imm is not None:
            tail.append(("imm", pos["imm"], imm))
        r = ("modrm", rexw) if modrm else ("riop", rexw) if riop else ("fixed", rexw) if rex else None
        tpl = (tuple(sorted(pref)), r, tuple(body), tuple(tail))
        combos = [()]
        for _, cs, _ in cls:
            combos = [x + (y,) for x in combos for y in cs]
        for k in combos:
            table.setdefault((mnem, k), set()).add(tpl)
    return table


def names(table):
    """struct base name (lower case, with arity suffix) -> mnemonic, following the arity naming rule."""
    by = {}
    for (m, ops), _ in table.items():
        by.setdefault(m, set()).add(len(ops))
    return by


if __name__ == "__main__":
    t = build()
    print(len(t), sum(len(v) for v in t.values()))
