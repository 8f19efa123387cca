"""P08: the intermediate representation means what the syntax tree says."""
import caserun, xlate
from facts import Mir


def check(ck):
    ck.rule("The translation of every form of expression, pattern, type, definition and reference is computed by abstract execution of the translator on a form with abstract parts, "
            "everything it asks the module set answered from a table; the result must be the term that the form means.")
    ck.rule("The identifiers given out over histories of requests (repeated, nested, recursive, of different kinds) must be the same for the same construct and different otherwise, and every "
            "construct is defined once, under its identifier.")
    mir = Mir(["llrl"], canon=True)
    fns = caserun.decide(ck, xlate.run_case, "forms of expressions and patterns", list(xlate.expr_table(mir)))
    fns |= caserun.decide(ck, xlate.run_case, "definitions, types and references", list(xlate.def_table(mir)))
    fns |= caserun.decide(ck, xlate.run_ids, "histories of identifiers", list(xlate.id_table(mir)))
    ck.count("functions of the translator analysed", len({f for f in fns if "lowering::translator" in f}))
    ck.floor("forms of expressions and patterns", 350)
    ck.floor("definitions, types and references", 400)
    ck.floor("histories of identifiers", 7)
    ck.floor("functions of the translator analysed", 30)
