"""P10: data types and pattern matching keep their meaning when they are lowered."""
import lowcases, lowrun


def check(ck):
    ck.rule("Over data types of every shape (no, one and several constructors; fields of every kind, generic, recursive, through aliases; "
            "declared representations), and matches over them with nested, constant, pointer, string and syntax patterns, the source program and the "
            "one `populate` makes of it are both executed abstractly over symbolic inputs: on every pair of paths whose conditions agree they "
            "perform the same calls in the same order and end with the same value.")
    ck.rule("The lowered program is well formed: every type it names was emitted, operands, fields, loads, stores and continuation arguments "
            "have the declared types, every variable is in scope, nothing is defined again within its scope, and no data or match construct is left.")
    cs = list(lowcases.cases(ck.tier == "thorough", ["data", "pattern"]))
    lowrun.decide(ck, cs)
    ck.floor("data programs", 120)
    ck.floor("pat programs", 22)
    ck.floor("nested programs", 28)
    ck.floor("mutual programs", 5)
    ck.floor("tags programs", 18)
    ck.floor("pairs of paths compared", 300)
    ck.floor("typing obligations", 3000)
    ck.floor("functions analysed", 100)
