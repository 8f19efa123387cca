"""P06: unification of types and kinds."""
import caserun, unify
from facts import Mir


def check(ck):
    ck.rule("Unification and matching, entered for every pair of shapes a type can have (unknowns of every relation of levels and of different kinds, cells that "
            "refer to others, constructors, type parameters of every level, applications sharing unknowns), are executed abstractly with the parts of applications "
            "left abstract; on every path a success must leave exactly the most general solution, with kinds respected, levels lowered and no cell reachable from "
            "itself, and every part required equal; a failure must be one that the rules have.")
    ck.rule("Replacement of type parameters, equality, the unknowns and the deepest level of a type, kinds of types, and reading types, schemes, constraints and "
            "instantiations from the syntax tree and writing them back are compared with their definition for every shape, and must leave every cell meaning what it meant.")
    mir = Mir(["llrl"], canon=True)
    fns = set()
    for g, t in (("pairs of types", unify.pair_table), ("operations on types", unify.op_table), ("readings, writings and kinds of types", unify.tree_table),
                 ("kinds", unify.kind_table)):
        fns |= caserun.decide(ck, unify.run_case, g, t(mir))
    own = {f for f in fns if "llrl::unification" in f}
    ck.count("functions of unification analysed", len(own))
    ck.floor("pairs of types", 1700)
    ck.floor("operations on types", 2200)
    ck.floor("readings, writings and kinds of types", 100)
    ck.floor("kinds", 1100)
    ck.floor("functions of unification analysed", 70)
