"""P07: closure conversion, instantiation, inlining and stack allocation keep a program's meaning."""
import lowcases, lowrun


def check(ck):
    ck.rule("Programs with local functions (capturing variables, parameters, each other; nested, recursive, escaping), generic functions and data "
            "at several instances, transparent functions with every kind of body given every kind of argument, and allocations that stay in or "
            "leave their function: the source program and the one `populate` makes of it are executed abstractly over symbolic inputs, and on "
            "every pair of paths whose conditions agree they perform the same calls in the same order and end with the same value. A cell put "
            "on the stack is dead once its function has returned, and one in a loop is the same cell each time round.")
    ck.rule("The lowered program is well formed: every function and type it names was emitted, with an environment where the function takes one, "
            "calls, loads and stores have the declared types, every variable is in scope, nothing is defined again within its scope, and no "
            "generic, alias, local function or transparent call is left unresolved.")
    cs = list(lowcases.cases(ck.tier == "thorough", ["closure", "generic", "inline", "heap"]))
    lowrun.decide(ck, cs)
    ck.floor("clos programs", 38)
    ck.floor("gen programs", 29)
    ck.floor("inline programs", 170)
    ck.floor("cell programs", 42)
    ck.floor("pairs of paths compared", 400)
    ck.floor("typing obligations", 3000)
    ck.floor("functions analysed", 100)
