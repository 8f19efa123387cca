"""P03: every definition a program refers to reaches the back end exactly once."""
import lowcases, lowrun


def check(ck):
    ck.rule("Sequences of top-level statements over shared functions, closures, data types and instances: `populate` runs abstractly for one "
            "after the other on one context. What each statement refers to, directly or through other definitions, is among the definitions emitted for it or "
            "for an earlier one, nothing is emitted a second time, and only definitions the back ends take are emitted.")
    ck.rule("Each lowered statement, executed abstractly with the definitions emitted so far, does what its source does.")
    quick = ck.tier != "thorough"
    cs = list(lowcases.cases(not quick, ["again"]))
    rep = list(lowcases.cases(not quick, ["closure", "generic", "inline", "heap", "data", "pattern"]))
    if quick:
        rep = [c for c in rep if c[0].split(":")[0] in ("clos", "gen", "pat", "list", "mutual", "self", "cell", "logic")] + [c for c in rep if c[0].startswith("inline:") and ":nullary" not in c[0]][::4] \
            + [c for c in rep if c[0].startswith("inline:nullary")]
    lowrun.decide(ck, cs + list(lowrun.repeated(rep)))
    ck.floor("again programs", 15)
    ck.floor("twice programs", 130)
    ck.floor("definitions emitted", 300)
    ck.floor("functions analysed", 100)
