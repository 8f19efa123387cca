"""P13: the operations, types and constructors that are built in are what their names say."""
import builtins_, caserun
from facts import Mir


def check(ck):
    ck.rule("The definition made of each built-in operation, type and constructor is computed by abstract execution of the translator on its declared type, and must be the "
            "operation of that name on the parameters in their order, with the type arguments that the declared type gives it.")
    ck.rule("Every declaration of the library is read: its type must be one the operation has (parameters, result, class of operands), and what the compiler knows by number must be declared as that.")
    mir = Mir(["llrl"], canon=True)
    fns = caserun.decide(ck, builtins_.run_case, "operations, types and constructors", list(builtins_.canonical(mir)))
    fns |= caserun.decide(ck, builtins_.run_case, "translated declarations", builtins_.declared(mir, ck))
    own = {f for f in fns if "lowering::translator" in f}
    ck.count("functions of the translator analysed", len(own))
    ck.floor("operations, types and constructors", 125)
    ck.floor("translated declarations", 115)
    ck.floor("declarations of operations", 115)
    ck.floor("declarations of types", 30)
    ck.floor("reserved constructs", 90)
    ck.floor("functions of the translator analysed", 10)
