"""Instruction encodings agree with the reference instruction table (xten0 and xten1)."""
from facts import Mir, tstr
import x86spec, rsinst
from absint import show

LEVEL = "other"


def struct_key(table, name, ops):
    n = name[0].lower() + name[1:]
    if (n, ops) in table:
        return (n, ops)
    if n and n[-1].isdigit() and int(n[-1]) == len(ops) and (n[:-1], ops) in table:
        return (n[:-1], ops)
    return None


def fmt(t):
    return "prefixes=%s rex=%s opcode=%s operands=%s" % (["%02X" % p for p in t[0]], t[1], " ".join("%02X" % b for b in t[2]), list(t[3]))


def rust(ck, table):
    mir = Mir(["xten"])
    covered = set()
    for name, ops, path, im in rsinst.writers(mir):
        if not path.startswith("<xten::asm::inst::"):
            continue
        rs, e = rsinst.analyse(mir, path)
        ck.count("xten0 writer functions")
        where = "%s:%d %s<%s>" % (im["file"], im["line"], name, ", ".join(ops))
        key = "xten0:%s<%s>" % (name, ",".join(ops))
        k = struct_key(table, name, ops)
        if k is None:
            ck.count("xten0 forms outside the reference table")
            ck.oblige(False, key, "%s: no such instruction form in the reference table" % where)
            continue
        covered.add(k)
        if not rs:
            ck.oblige(False, key, "%s: no normal return found" % where)
            continue
        for st, _ in rs:
            t, why = rsinst.template(st.events)
            if t is None:
                ck.oblige(False, key, "%s: %s" % (where, why))
            else:
                ck.oblige(t in table[k], key, "%s: emits %s, reference is %s" % (where, fmt(t), " or ".join(fmt(x) for x in sorted(table[k], key=str))))
    ck.floor("xten0 writer functions", 1366)
    for k in table:
        if k not in covered:
            ck.oblige(False, "xten0:missing:%s<%s>" % (k[0], ",".join(k[1])), "xten0 has no writer for %s %s" % k)
    # mnemonic methods must build the instruction of the same name with operands in order
    for p, f in mir.fns.items():
        if not p.startswith("xten::asm::inst::WriteInstExt::"):
            continue
        m = p.split("::")[-1]
        seen = []
        from absint import Engine, State
        def hk(e, st, c):
            if c.m == "write_inst" or c.path.endswith("::write_inst"):
                seen.append(e.snap(st, e.through(st, c.args[0])))
                return [(st, ("app", "r", (), c.dty))]
            return rsinst.hooks(e, st, c)
        e = Engine(mir, hk)
        n = f["argc"] - 1
        e.call_fn(State(), p, [("sym", "self", ("?",))] + [("sym", "op%d" % i, ("?",)) for i in range(n)])
        ck.count("xten0 mnemonic methods")
        ok = len(seen) == 1 and seen[0][0] == "adt" and seen[0][1].split("::")[-1].lower() == m and \
            [show(x) for x in seen[0][4]] == ["op%d" % i for i in range(n)]
        ck.oblige(ok, "xten0:method:" + m, "%s:%d method %s writes %s" % (f["file"], f["line"], m, [show(x) for x in seen]))
    ck.floor("xten0 mnemonic methods", 480)


def check(ck):
    table = x86spec.build()
    ck.rule("The byte-emission template of every instruction writer (prefixes, REX source and W, opcode bytes, ModRM/SIB/displacement sources, immediate operand and width) is computed by constant propagation over its MIR and must be an encoding the reference instruction table lists for that mnemonic and operand classes.")
    rust(ck, table)
    try:
        import llinst
    except ImportError:
        return
    llinst.check(ck, table, struct_key, fmt)
