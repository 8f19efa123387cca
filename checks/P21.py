"""P21: the library's operations on machine types, its conversions, and UTF-8."""
import stdlib


def check(ck):
    ck.rule("The methods of the library on each machine type and each conversion between two are evaluated on symbolic operands, and must be the operation of that name for the type, on the operands in their order.")
    ck.rule("Functions of any ordered or numeric type are evaluated for each order of their operands, the reading of numbers for each range of what was read.")
    ck.rule("UTF-8 is evaluated on the unknown bits of each range of characters, of each range of sequences of bytes, and of each class of byte in each state of the decoder.")
    L = stdlib.Lib()
    stdlib.machine(ck, L)
    stdlib.texts(ck, L)
    stdlib.generic(ck, L)
    stdlib.utf8(ck, L)
    stdlib.scalars(ck, L)
    stdlib.escapes(ck, L)
    ck.floor("methods on machine types", 240)
    ck.floor("conversions", 90)
    ck.floor("ranges of numbers read", 60)
    ck.floor("functions of any type, by order of operands", 37)
    ck.floor("ranges of characters", 14)
    ck.floor("ranges of sequences of bytes", 10)
    ck.floor("bytes in states", 35)
    ck.floor("characters escaped", 6)
