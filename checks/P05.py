"""P05: what type inference requires of every form."""
import caserun, typecases
from facts import Mir


def check(ck):
    ck.rule("Type inference, entered for every kind of expression, pattern, declaration and first use with subterms whose types are symbols, is "
            "executed abstractly; on every path the requirements it makes (equalities between types, instantiations, scopes opened and closed, "
            "types recorded, constraints asked for) are compared, as sets of equations over fresh unknowns, with the typing rule of the form, and "
            "a path on which any of them fails must end in an error without asking for more.")
    ck.rule("Closing a scope turns exactly the quantified unknowns into type parameters, keeps, puts off, defaults or satisfies each constraint by "
            "the unknowns and levels in it; a constraint is satisfied only by an assumption that is equal or by an instance that matches, after "
            "overlap was ruled out and with the instance's own constraints satisfied in turn under a bound.")
    mir = Mir(["llrl"], canon=True)
    fns = set()
    for g, t in (("forms", typecases.table), ("declarations", typecases.decl_table), ("first uses", typecases.first_table), ("scopes and constraints", typecases.solve_table)):
        fns |= caserun.decide(ck, typecases.run_case, g, t(mir))
    own = {f for f in fns if f.startswith("llrl::module::sema::type_inference")}
    ck.count("functions of type inference analysed", len(own))
    ck.floor("forms", 58)
    ck.floor("declarations", 30)
    ck.floor("first uses", 22)
    ck.floor("scopes and constraints", 40)
    ck.floor("paths", 500)
    ck.floor("functions of type inference analysed", 130)
