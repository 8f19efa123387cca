"""P04: names and scopes."""
import caserun, scoping
from facts import Mir


def check(ck):
    ck.rule("Resolving a form is computed by abstract execution of the resolver on the form with abstract parts: each part must be resolved exactly once, in a context that binds exactly what "
            "the form binds for it, each name must be looked up in that context, and it must stand for what it was found to be, or be refused where that is not allowed.")
    ck.rule("The scopes, executed on every sequence of definitions, entries and exits up to a length, must give every name its innermost definition, give back the outer one when a scope is "
            "left, and refuse a second definition of a name in one scope.")
    ck.rule("The methods of an instance must stand for those of its class with the same names, and be refused where one is unknown, missing, given twice or of other parameters.")
    mir = Mir(["llrl"], canon=True)
    fns = caserun.decide(ck, scoping.run_case, "forms and names", list(scoping.table(mir)))
    fns |= caserun.decide(ck, scoping.run_case, "methods of instances", list(scoping.instances(mir)))
    fns |= caserun.decide(ck, scoping.run_scope, "sequences of definitions in scopes", list(scoping.scopes(mir)))
    fns |= caserun.decide(ck, scoping.run_context, "contexts", list(scoping.contexts(mir)))
    ck.count("functions of the resolver analysed", len({f for f in fns if "sema::resolver" in f or "module::scope" in f}))
    ck.floor("forms and names", 190)
    ck.floor("methods of instances", 50)
    ck.floor("sequences of definitions in scopes", 600)
    ck.floor("contexts", 12)
    ck.floor("functions of the resolver analysed", 45)
