"""P09: match expressions are exhaustive and have no clause that can never be chosen."""
import astcases, caserun, covers
from facts import Mir


def check(ck):
    ck.rule("Each step of the decision (is a row of patterns new after others, what do rows leave out, have two patterns no value in common) is executed abstractly "
            "for every combination of first patterns, the other patterns being unknown and the recursive calls hypotheses; the answer on every path must follow, by "
            "the meaning of the patterns, from the answers of the recursive calls, and nothing reported as missing may be covered.")
    ck.rule("The whole check must derive its verdict from questions about all clauses before, except those shown to be irrelevant; every form of pattern is taken for what "
            "it matches, constructors are known by all constructors of their type, the clauses of a match are checked in order and what is found is reported.")
    ck.rule("Every match expression is looked at: for each form of the syntax tree, traversals reach every part that the type definitions have, once, and stop at a failure.")
    mir = Mir(["llrl"], canon=True)
    fns = set()
    for g, run, t in (("steps of usefulness", covers.run_case, covers.useful_table), ("steps of what is missing", covers.run_case, covers.missing_table),
                      ("pairs of patterns", covers.run_case, covers.apart_table), ("clause lists", covers.run_case, covers.whole_table),
                      ("traversals", astcases.run_case, astcases.walk_table), ("patterns, constructors and matches", astcases.run_case, astcases.validate_table)):
        fns |= caserun.decide(ck, run, g, t(mir))
    own = {f for f in fns if "llrl::pattern_matching" in f or "llrl::module::sema::validator" in f or "Dfs" in f}
    ck.count("functions of the check analysed", len(own))
    ck.floor("steps of usefulness", 2700)
    ck.floor("steps of what is missing", 900)
    ck.floor("pairs of patterns", 50)
    ck.floor("clause lists", 5)
    ck.floor("traversals", 65)
    ck.floor("patterns, constructors and matches", 65)
    ck.floor("functions of the check analysed", 55)
