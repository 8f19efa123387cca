"""P22: imports and exports."""
import caserun, ports
from facts import Mir


def check(ck):
    ck.rule("The names a module sees after its imports are computed by abstract execution of the importer on every form of target (names, new names, wildcards before and after, several of them, "
            "from several modules, beside the library) and must be those the targets mean; two things of one name, unknown names and senseless targets must be refused.")
    ck.rule("The names a module gives are computed by abstract execution of the exporter in the same way. The modules imported must be initialized in the order of the imports, and the "
            "instances that came in must be available.")
    mir = Mir(["llrl"], canon=True)
    fns = caserun.decide(ck, ports.run_case, "imports", list(ports.imports(mir)))
    fns |= caserun.decide(ck, ports.run_case, "exports", list(ports.exports(mir)))
    ck.count("functions analysed", len({f for f in fns if "::importer" in f or "::exporter" in f or "::meaning" in f or "module::scope" in f}))
    ck.floor("imports", 75)
    ck.floor("exports", 50)
    ck.floor("functions analysed", 10)
