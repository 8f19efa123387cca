"""P11: the code the chibi backend emits for an expression computes what the IR prescribes."""
import re, collections
import chibi, rtrun, rtcases as RC
from facts import Mir

TAGS = (":u64", ":s64", ":f64", ":u8", ":s32-", ":u64-", ":f32-f64", ":ptr")


def few(c):
    m = re.match(r"\w+:(.*?)(/|$)", c.name)
    return m is None or m.group(1) in [str(t) for t in RC.FEW]


def select(c, groups, deep):
    """the instances of the quick tier: every form at every type, called and with variables as operands; interrupted
    operands in a nested position"""
    if deep:
        return True
    s = c.name.split("/", 1)
    k = s[1] if len(s) > 1 else ""
    if k in ("", "odd", "vars"):
        return True
    if c.group == "op":
        return k.startswith("cdiv") and k.endswith("/odd") and any(t in c.name for t in TAGS)
    if c.group == "data":
        return k.startswith("cdiv") and k.endswith("/odd") or (k.startswith("div") and k.endswith("/odd") and few(c)) or (k.startswith("var") and few(c))
    if c.group == "control":
        return few(c) or k.endswith("/odd")
    return k.endswith("/odd") and "div" in k and len(c.params) == 0 and not re.match(r"div\d+/odd", k) or (k.startswith("var") and few(c))


def decide(ck, groups, extra=(), mir=None, be=chibi):
    mir = mir or Mir(["llrl", "xten"], canon=True)
    deep = ck.tier == "thorough"
    cases = [c for c in RC.Gen(rtrun.mk_case).cases(groups, deep) if select(c, groups, deep)] + list(extra)
    forms = collections.Counter(c.group for c in cases if not isinstance(c, RC.Pair))
    res, fns = rtrun.run(cases, mir, be=be)
    seen = {}
    for c, diffs, paths, insts in res:
        g = "fn" if isinstance(c, RC.Pair) else c.group
        ck.count("%s cases" % g)
        ck.count("paths through emitted code", paths)
        ck.count("emitted instructions interpreted", insts)
        form = c.name.split("/")[0]
        key = "%s:%s" % (form.split(":")[0], diffs[0][0] if diffs else "")
        if diffs and key in seen:
            seen[key] += 1
            ck.obligations += 1
            continue
        ck.oblige(not diffs, key, "%s: %s" % (c.name, "; ".join("[%s] %s" % d for d in diffs[:2])[:600]))
        if diffs:
            seen[key] = 1
    for k, n in seen.items():
        if n > 1:
            ck.note("%s in %d cases." % (k, n))
    return mir, fns


def typing(ck, mir, groups):
    cg = chibi.Chibi(mir)
    for c in RC.Gen(rtrun.mk_case).cases(groups):
        if "/" in c.name and not c.name.endswith("/vars"):
            continue
        try:
            d = cg.typed(c)
        except (KeyError, ValueError, IndexError, TypeError, AttributeError) as x:
            d = "the type is not computed: %s" % x
        ck.count("expression types")
        ck.oblige(not d, "type:" + c.name.split("/")[0].split(":")[0], "%s: %s" % (c.name, d))
    return cg.functions


def check(ck):
    ck.rule("For every operator, constant, memory, aggregate and control form of the IR, at operand types that cover every size, "
            "register class, padding and field layout, the code generator (llrl::backend::chibi) is interpreted abstractly over that IR "
            "function; the instruction sequence it emits is executed abstractly over terms, with callees and operands that overwrite every "
            "register and stack slot the calling conventions let them overwrite and operands that leave the function on some or all "
            "paths. On every path, calls, stores, allocations and the result equal the meaning of the form in the IR.")
    ck.rule("The type the IR computes for every form equals the type of its value (code generation places values by that type).")
    mir, fns = decide(ck, ["op", "data", "control"], rtrun.scope_cases(ck.tier == "thorough"))
    fns |= typing(ck, mir, ["op", "data", "control", "call"])
    ck.counts["functions analysed"] = len([f for f in fns if f.startswith("llrl::")])
    ck.floor("op cases", 900)
    ck.floor("data cases", 3000)
    ck.floor("control cases", 400)
    ck.floor("scope cases", 250)
    ck.floor("expression types", 2000)
    ck.floor("functions analysed", 90)
    ck.floor("paths through emitted code", 5000)
