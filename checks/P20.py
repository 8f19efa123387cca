"""P20: functions emitted by the chibi backend keep the calling conventions."""
import chibi, rtrun
import P11


def check(ck):
    ck.rule("For calls of every kind (closures, C functions by name and through a pointer, mains and macros) over argument and result "
            "types of every size and register class, functions with every shape of environment, macros and mains, and all control forms, "
            "the emitted function is executed abstractly: at each call rsp is 16-byte aligned and every argument lies where the convention "
            "puts it; nothing is written below rsp or over the return address; on every path to a return rsp, rbp and the callee-saved "
            "registers hold their entry values and the result is in its registers or in the caller's buffer; callees may overwrite "
            "everything the convention lets them overwrite.")
    ck.rule("What a closure stores in its environment is what the function finds there. The C entry point passes its arguments to the "
            "runtime, runs the program once and returns 0.")
    mir, fns = P11.decide(ck, ["call", "control"], rtrun.fn_cases() + rtrun.scope_cases(ck.tier == "thorough"))
    cg = chibi.Chibi(mir)
    try:
        bad, n = chibi.check_adapter(cg)
    except (chibi.Emit, KeyError, IndexError, ValueError, TypeError, AttributeError, chibi.X.Unsupported) as x:
        bad, n = [("entry", "not analysed: %s" % x)], 0
    ck.oblige(not bad, "entry", "; ".join("[%s] %s" % b for b in bad))
    ck.count("entry points", 1 if n else 0)
    fns |= cg.functions
    ck.counts["functions analysed"] = len([f for f in fns if f.startswith("llrl::")])
    ck.floor("entry points", 1)
    ck.floor("call cases", 2000)
    ck.floor("fn cases", 200)
    ck.floor("control cases", 400)
    ck.floor("scope cases", 250)
    ck.floor("functions analysed", 90)
    ck.floor("paths through emitted code", 5000)
