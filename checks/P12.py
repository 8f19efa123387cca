"""P12: the module the LLVM backend builds for an expression means what the IR prescribes."""
import llvmb, rtrun
import P11


def check(ck):
    ck.rule("For every operator, constant, memory, aggregate, call and control form of the IR, at operand types that cover every size, "
            "padding and field layout, with operands called, in variables or leaving the function, the code generator "
            "(llrl::backend::llvm and the crate llvm) is interpreted abstractly over that IR function; the LLVM module it builds through "
            "the C interface is type checked (operands, phi inputs, calls, returns, terminators) and executed abstractly over terms. On "
            "every path, calls, stores, allocations and the result equal the meaning of the form in the IR.")
    ck.rule("What a closure stores in its environment is what the function finds there. Functions, macros and mains take and return their "
            "values as their callers expect. The C entry point passes its arguments to the runtime, runs the program once and returns 0.")
    mir = llvmb.driver().mir
    mir, fns = P11.decide(ck, ["op", "data", "control", "call"], rtrun.fn_cases() + rtrun.scope_cases(ck.tier == "thorough"), mir, llvmb)
    cg = llvmb.driver(mir)
    try:
        bad, n = llvmb.check_adapter(cg)
    except (llvmb.Emit, KeyError, IndexError, ValueError, TypeError, AttributeError, llvmb.X.Unsupported) as x:
        bad, n = [("entry", "not analysed: %s" % x)], 0
    ck.oblige(not bad, "entry", "; ".join("[%s] %s" % b[:2] for b in bad))
    ck.count("entry points", 1 if n else 0)
    fns |= cg.functions
    ck.counts["functions analysed"] = len([f for f in fns if f.startswith(("llrl::", "llvm::"))])
    ck.floor("entry points", 1)
    ck.floor("op cases", 900)
    ck.floor("data cases", 3000)
    ck.floor("control cases", 400)
    ck.floor("call cases", 2000)
    ck.floor("fn cases", 200)
    ck.floor("scope cases", 250)
    ck.floor("functions analysed", 200)
    ck.floor("paths through emitted code", 8000)
