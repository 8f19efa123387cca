"""The IR functions over which code generation is decided: every expression form, over a set of types that covers every
size, register class and padding pattern, with operands that overwrite everything the calling convention lets a callee
overwrite.  Since an operand is an arbitrary expression obeying the same contract, agreement on these forms extends to all
expressions by induction on their structure."""

STRUCTS = {
    10: ["u8", "u8", "u8"], 11: ["u32", "u8"], 12: ["u8"] * 5, 13: ["u16"] * 3, 14: ["u8"] * 7, 15: ["u64", "u8"],
    16: [("id", 14), "u8", "u8"], 17: [("id", 14), ("id", 10), "u8"], 18: ["u32", "u32", "u32"], 19: [("id", 12), ("id", 12), ("id", 10)],
    20: ["f32", "f32"], 21: ["f32", "f32", "f32"], 22: ["f64", "f64"], 23: ["f32", "u32"], 24: ["u64", "f64"], 25: ["f64", "u64"],
    26: ["f32", "f32", "u32"], 27: ["u64", "f32"], 28: ["u64", "u64", "u64"], 29: ["f64", "f64", "f64"], 30: [("id", 14), ("id", 14), ("id", 10)],
    31: ["u64", "u64", "u8"], 32: ["f32"] * 5, 33: ["unit", "u32", "unit"], 34: [], 35: [("id", 11), "f64"], 36: ["string", "u64"],
    37: ["u8", ("id", 50)], 38: ["u1", "u32"], 39: [("id", 14), ("id", 14), ("id", 14)], 40: ["u16", "u8"], 41: ["f64"], 42: [("id", 14), ("id", 14), "u8"],
    43: ["u16", "u16", "u8", "u8", "u8", "u8"], 44: [("ptr", "u8"), ("id", 10)], 45: [("clos", ("s32",), "s64"), ("ptr", "u64")],
}
UNIONS = {50: ["u64", "f64", ("id", 10)], 51: [("id", 28), "u8", "f32"], 52: [("id", 15), ("id", 22)], 53: ["u8", ("id", 10)], 54: ["unit", "u32"]}
DEFS = {k: ("struct", v) for k, v in STRUCTS.items()}
DEFS.update({k: ("union", v) for k, v in UNIONS.items()})

INTS = ["u8", "s8", "u16", "s16", "u32", "s32", "u64", "s64"]
FLOATS = ["f32", "f64"]
CLOS = ("clos", ("s32",), "s64")
SCALARS = ["u1"] + INTS + FLOATS + [("ptr", "u64"), "char", "string", ("array", "u32"), CLOS, "use", "env", ("syntax", "u64"), "unit"]
AGGR = [("id", k) for k in STRUCTS]
CUNIONS = [("id", k) for k in UNIONS]
ALL = SCALARS + AGGR + CUNIONS
FEW = ["u1", "u8", "s32", "u64", "f32", "f64", "string", "unit", ("id", 10), ("id", 21), ("id", 24), ("id", 28), ("id", 39)]
S3 = ("id", 28)


def needed(t, out):
    """type definitions a type mentions"""
    if isinstance(t, tuple):
        if t[0] == "id":
            if t[1] not in out:
                out[t[1]] = DEFS[t[1]]
                for f in DEFS[t[1]][1]:
                    needed(f, out)
        else:
            for x in t[1:]:
                if isinstance(x, (tuple, str)):
                    needed(x, out)
    return out


def types_in(x, out):
    if isinstance(x, tuple):
        if len(x) == 2 and x[0] == "id" and isinstance(x[1], int):
            needed(x, out)
        else:
            for y in x:
                types_in(y, out)
    elif isinstance(x, list):
        for y in x:
            types_in(y, out)
    return out


class Form:
    """an expression form: child types, result type (None: diverges), builder over child expressions"""

    def __init__(self, name, kids, ret, build, group, sigs=None, pure_order=True):
        self.name, self.kids, self.ret, self.build, self.group, self.sigs = name, kids, ret, build, group, dict(sigs or {})


def forms():
    out = []

    def f(name, kids, ret, build, group, **kw):
        out.append(Form(name, kids, ret, build, group, **kw))

    def un(op, a, r, group="op", tag=""):
        f("%s%s" % (op[0], tag), [a], r, lambda x: ("unary", op, x), group)

    def bi(op, a, b, r, group="op", tag=""):
        f("%s%s" % (op[0], tag), [a, b], r, lambda x, y: ("binary", op, x, y), group)

    # integer and floating point operators
    for t in INTS:
        sg = t[0] == "s"
        for n in ("IShl", "ILShr", "IAShr", "IAnd", "IOr", "IXor"):
            bi((n,), t, t, t, tag=":" + t)
        for n in (("SAdd", "SSub", "SMul", "SDiv", "SRem") if sg else ("UAdd", "USub", "UMul", "UDiv", "URem")):
            bi((n,), t, t, t, tag=":" + t)
        for n in (("SLt", "SLe", "SGt", "SGe") if sg else ("ULt", "ULe", "UGt", "UGe")) + ("IEq",):
            bi((n,), t, t, "u1", tag=":" + t)
        un(("IComplement",), t, t, tag=":" + t)
        un(("IPopCount",), t, t, tag=":" + t)
        for u in INTS:
            if u[0] == t[0]:
                a, b = int(t[1:]), int(u[1:])
                if b < a:
                    un(("ITrunc", u), t, u, tag=":%s-%s" % (t, u))
                if b > a:
                    un(("SExt" if sg else "UExt", u), t, u, tag=":%s-%s" % (t, u))
        for u in FLOATS:
            un(("SToF" if sg else "UToF", u), t, u, tag=":%s-%s" % (t, u))
            un(("FToS" if sg else "FToU", t), u, t, tag=":%s-%s" % (u, t))
        un(("BitCast", ("u" if sg else "s") + t[1:]), t, ("u" if sg else "s") + t[1:], tag=":" + t)
    for t in FLOATS:
        for n in ("FAdd", "FSub", "FMul", "FDiv", "FRem", "MathPow"):
            bi((n,), t, t, t, tag=":" + t)
        for n in ("FEq", "FLt", "FLe", "FGt", "FGe"):
            bi((n,), t, t, "u1", tag=":" + t)
        for n in ("RealCeil", "RealFloor", "RealTrunc", "RealRound", "MathSqrt", "MathSin", "MathCos", "MathExp", "MathLog"):
            un((n,), t, t, tag=":" + t)
    un(("FTrunc", "f32"), "f64", "f32")
    un(("FExt", "f64"), "f32", "f64")
    un(("Not",), "u1", "u1")
    P = ("ptr", "u64")
    for n in ("PtrEq", "PtrLt", "PtrLe", "PtrGt", "PtrGe"):
        bi((n,), P, P, "u1")
    bi(("IEq",), "u1", "u1", "u1", tag=":u1")
    for n in ("IAnd", "IOr", "IXor"):
        bi((n,), "u1", "u1", "u1", tag=":u1")
    un(("PtrToI",), P, "u64")
    un(("IToPtr", "u8"), "u64", ("ptr", "u8"))
    un(("BitCast", ("ptr", "u8")), P, ("ptr", "u8"), tag=":ptr")
    un(("StringPtr",), "string", ("ptr", "u8"))
    un(("StringLength",), "string", "u64")
    un(("ArrayPtr",), ("array", "u32"), ("ptr", "u32"))
    un(("ArrayLength",), ("array", "u32"), "u64")
    un(("Panic",), "string", None, group="control")
    bi(("StringConstruct",), ("ptr", "u8"), "u64", "string")
    bi(("StringEq",), "string", "string", "u1")
    bi(("StringCmp",), "string", "string", "s32")
    bi(("StringConcat",), "string", "string", "string")
    bi(("ArrayConstruct",), ("ptr", "u32"), "u64", ("array", "u32"))
    # nullary and constants
    for t in ("u64", ("id", 10), ("id", 28)):
        f("Null:%s" % (t,), [], ("ptr", t), lambda t=t: ("nullary", ("Null", t)), "op")
    f("GenId", [], "string", lambda: ("nullary", ("GenId",)), "op")
    for t in ALL:
        f("SizeOf:%s" % (t,), [], "u64", lambda t=t: ("nullary", ("SizeOf", t)), "data")
        if t not in ("unit", ("id", 34)):
            f("AlignOf:%s" % (t,), [], "u64", lambda t=t: ("nullary", ("AlignOf", t)), "data")
        f("Uninitialized:%s" % (t,), [], t, lambda t=t: ("nullary", ("Uninitialized", t)), "data")
    for t in INTS:
        n = int(t[1:])
        for v in {0, 1, (1 << (n - 1)) - 1, 1 << (n - 1), (1 << n) - 1, 0x1234567890abcdef & ((1 << n) - 1)}:
            f("Const:%s:%x" % (t, v), [], t, lambda t=t, v=v: ("const", "int", t, False, v), "op")
        f("Const:%s:-1" % t, [], t, lambda t=t: ("const", "int", t, True, (1 << 64) - 1), "op")
    for v in (0, 1):
        f("Const:u1:%d" % v, [], "u1", lambda v=v: ("const", "int", "u1", False, v), "op")
    for t in FLOATS:
        for v in (0.0, 1.0, -2.5, 0.1, 1e30):
            f("Const:%s:%r" % (t, v), [], t, lambda t=t, v=v: ("const", "fp", t, v), "op")
        for s, v in ((False, 7), (True, (1 << 64) - 7), (False, (1 << 63) + (1 << 40))):
            f("Const:%s:int:%x" % (t, v), [], t, lambda t=t, s=s, v=v: ("const", "int", t, s, v), "op")
    for v in ("", "a", "héllo, world"):
        f("Const:string:%r" % v, [], "string", lambda v=v: ("const", "str", v), "op")
    for v in (0, 65, 0x10ffff):
        f("Const:char:%x" % v, [], "char", lambda v=v: ("const", "char", v), "op")
    f("Const:unit", [], "unit", lambda: ("const", "unit"), "op")
    # memory and data
    for t in ALL:
        un(("Load",), ("ptr", t), t, "data", ":%s" % (t,))
        bi(("Store",), t, ("ptr", t), "unit", "data", ":%s" % (t,))
        un(("SyntaxBody",), ("syntax", t), t, "data", ":%s" % (t,))
        f("Alloc:%s" % (t,), [t], ("ptr", t), lambda x: ("alloc", "Heap", x), "data")
        f("AllocArray:%s" % (t,), ["u64"], ("array", t), lambda x, t=t: ("allocarray", "Heap", t, x), "data")
        f("Offset:%s" % (t,), ["u64", ("ptr", t)], ("ptr", t), lambda x, y: ("binary", ("Offset",), x, y), "data")
        bi(("ArrayLoad",), "u64", ("array", t), t, "data", ":%s" % (t,))
        f("ArrayStore:%s" % (t,), ["u64", t, ("array", t)], "unit", lambda x, y, z: ("ternary", ("ArrayStore",), x, y, z), "data")
        for n in ("PtrCopy", "PtrMove"):
            f("%s:%s" % (n, t), [("ptr", t), "u64", ("ptr", t)], "unit", lambda x, y, z, n=n: ("ternary", (n,), x, y, z), "data")
        f("ConstructSyntax:%s" % (t,), [t], ("syntax", t), lambda x: ("syntax", x), "data")
        f("StackAlloc:%s" % (t,), [t], t, lambda x, t=t: ("let", [(70, ("ptr", t), ("alloc", "StackStatic", x))],
          ("seq", [("call", "c", "touch", "u64", [])], ("unary", ("Load",), ("var", 70, ("ptr", t))))), "data", sigs={"touch": ("c", [], "u64")})
    f("StackAlloc:two", ["u64", ("id", 39)], "u64", lambda x, y: ("let", [(70, ("ptr", "u64"), ("alloc", "StackStatic", x)), (71, ("ptr", ("id", 39)), ("alloc", "StackStatic", y))],
      ("call", "c", "touch", "u64", [("var", 70, ("ptr", "u64")), ("var", 71, ("ptr", ("id", 39)))])), "data", sigs={"touch": ("c", [("ptr", "u64"), ("ptr", ("id", 39))], "u64")})
    for k, fs in STRUCTS.items():
        t = ("id", k)
        f("ConstructStruct:%d" % k, list(fs), t, lambda *xs, t=t: ("struct", t, list(xs)), "data")
        for i, ft in enumerate(fs):
            un(("StructElem", ft, i), t, ft, "data", ":%d.%d" % (k, i))
    for k, vs in UNIONS.items():
        for v in vs:
            un(("Reinterpret", ("id", k)), v, ("id", k), "data", ":%s-%d" % (v, k))
            un(("Reinterpret", v), ("id", k), v, "data", ":%d-%s" % (k, v))
    for a, b in (("u64", "f64"), ("f64", "u64"), ("f32", "u32"), (("id", 28), ("id", 29)), (("id", 22), ("id", 15)), (("id", 28), "u8"), ("u8", ("id", 28)),
                 ("string", ("id", 15)), (("id", 39), ("id", 28)), (("id", 28), ("id", 39))):
        un(("Reinterpret", b), a, b, "data", ":%s-%s" % (a, b))
    # calls
    def c(args, ret, tag=""):
        name = "callee"
        f("CDirect:%s->%s%s" % (",".join(str(a) for a in args), ret, tag), list(args), ret, lambda *xs: ("call", "c", name, ret, list(xs)), "call", sigs={name: ("c", list(args), ret)})
        f("CIndirect:%s->%s%s" % (",".join(str(a) for a in args), ret, tag), [("ptr", "unit")] + list(args), ret,
          lambda p, *xs: ("call", "ci", p, ret, list(xs)), "call", sigs={("ind",): ("c", list(args), ret)})

    def l(args, ret, tag=""):
        ct = ("clos", tuple(args), ret)
        f("Standard:%s->%s%s" % (",".join(str(a) for a in args), ret, tag), list(args) + [ct], ret,
          lambda *xs: ("call", "std", xs[-1], ret, list(xs[:-1])), "call", sigs={("std",): ("std", list(args), ret)})

    cok = [t for t in SCALARS + AGGR]
    for t in cok:
        c([t], "u64")
        c(["u32", t, "f32"], t)
        l([t], "u64")
        l(["u8", t, "f64"], t)
    for t in CUNIONS:
        l(["u8", t, "f64"], t)
    for args, ret in ((["u64"] * 8, "u64"), (["f64"] * 10, "f64"), (["u64"] * 6 + ["f64"] * 8 + ["u8", "f32"], ("id", 24)), ([("id", 28), "u64", ("id", 15), "u64", "u64", "u64", "u64"], "u64"),
                      (["u64"] * 5 + [("id", 15), "u8"], "u64"), (["u64"] * 5 + [("id", 24), "f64", "u64"], ("id", 28)), (["f64"] * 7 + [("id", 22), "f64"], ("id", 22)),
                      ([("id", 28), ("id", 31), "u8"], ("id", 28)), ([("id", 24), ("id", 25), ("id", 27), ("id", 21)], ("id", 21)), (["u8", "u16", "u32", "u64", "s8", "s16", "s32", "s64", "u8"], "s8"),
                      ([], "unit"), ([], ("id", 28)), ([("id", 28)] * 2, "unit"), (["unit", "u64", "unit"], "unit"), (["string", "string", "string", "string"], "string"),
                      ([("id", 34), "u64"], ("id", 34)), (["f32"] * 9 + [("id", 20)], ("id", 20)), (["u64"] * 6 + ["string", ("id", 39)], ("id", 39))):
        c(args, ret)
        l(args, ret)
    f("MainIndirect", [("ptr", "unit")], "u1", lambda p: ("call", "main", p, None, []), "call", sigs={("ind",): ("c", [], "u1")})
    for t in (("id", 28), ("id", 36)):
        f("MacroIndirect:%s" % (t,), [("ptr", "unit"), ("syntax", "u64")], t, lambda p, x, t=t: ("call", "macro", p, t, [x]), "call", sigs={("ind",): ("c", [("syntax", "u64")], t)})
    for t in ("s64",):
        f("StaticFun:env", ["env"], CLOS, lambda x: ("fun", 2, CLOS, x), "call")
        f("StaticFun", [], CLOS, lambda: ("fun", 2, CLOS, None), "call")
    # environments
    # control
    for t in FEW:
        f("If:%s" % (t,), ["u1", t, t], t, lambda p, x, y: ("if", p, x, y), "control")
        f("Seq:%s" % (t,), [t, t, t], t, lambda x, y, z: ("seq", [x, y], z), "control")
    for t in ALL:
        f("LetVar:%s" % (t,), [t, "u64", t], t, lambda x, y, z, t=t: ("let", [(70, t, x), (71, "u64", y)], ("seq", [z], ("var", 70, t))), "control")
    for t in FEW:
        f("Return:%s" % (t,), [t], None, lambda x: ("return", x), "control")
        f("LetCont:%s" % (t,), ["u1", t, "u32", t, t], t, lambda p, x, y, z, w, t=t: ("letcont", [(80, [(81, t), (82, "u32")], ("seq", [z], ("var", 81, t))), (83, [], w)],
          ("if", p, ("contcall", 80, [x, y], t), ("contcall", 83, [], t))), "control")
        f("LetContChain:%s" % (t,), ["u1", t, t], t, lambda p, x, y, t=t: ("letcont", [(80, [(81, t)], ("letcont", [(83, [(84, t), (85, t)], ("var", 85, t))],
          ("if", p, ("contcall", 83, [x, ("var", 81, t)], t), ("var", 81, t))))], ("contcall", 80, [y], t)), "control")
    f("While", ["u1", "u64"], "unit", lambda p, x: ("while", p, x), "control")
    f("While:mem", ["u1", ("id", 28)], "unit", lambda p, x: ("while", p, x), "control")
    f("While:var", ["u64"], "u64", lambda x: ("let", [(70, ("ptr", "u64"), ("alloc", "Heap", x))], ("seq", [("while", ("binary", ("ULt",), ("unary", ("Load",), ("var", 70, ("ptr", "u64"))), ("const", "int", "u64", False, 9)),
      ("binary", ("Store",), ("call", "c", "step", "u64", []), ("var", 70, ("ptr", "u64"))))], ("unary", ("Load",), ("var", 70, ("ptr", "u64"))))), "control", sigs={"step": ("c", [], "u64")})
    f("LetShadow", ["u64", ("id", 28), "u64"], "u64", lambda x, y, z: ("let", [(70, "u64", x)], ("let", [(71, ("id", 28), y)], ("let", [(72, "u64", z)],
      ("binary", ("USub",), ("var", 70, "u64"), ("binary", ("USub",), ("unary", ("StructElem", "u64", 1), ("var", 71, ("id", 28))), ("var", 72, "u64")))))), "control")
    f("LetScopes", ["u64", "u64", "u64"], "u64", lambda x, y, z: ("let", [(69, "u64", x)], ("binary", ("USub",), ("let", [(70, "u64", y)], ("var", 70, "u64")),
      ("binary", ("USub",), ("let", [(71, "u64", z)], ("var", 71, "u64")), ("var", 69, "u64")))), "control")
    f("ContVars", ["u64", "u64", "u64"], "u64", lambda x, y, z: ("let", [(69, "u64", x)], ("letcont", [(80, [(81, "u64"), (82, "u64")], ("let", [(73, "u64", z)],
      ("binary", ("USub",), ("var", 73, "u64"), ("binary", ("USub",), ("var", 82, "u64"), ("binary", ("USub",), ("var", 81, "u64"), ("var", 69, "u64"))))))],
      ("let", [(74, "u64", y)], ("contcall", 80, [("var", 74, "u64"), ("var", 69, "u64")], "u64")))), "control")
    return out


class Scopes:
    """forms that hold values over a sub-expression, applied to each other"""

    def __init__(self):
        self.n, self.sigs = 1000, {}
        self.forms = [x for x in dir(self) if x.startswith("k_")]

    def id(self):
        self.n += 1
        return self.n

    def x(self, t="u64"):
        nm = "leaf%d" % self.id()
        self.sigs[nm] = ("c", [], t)
        return ("call", "c", nm, t, [])

    def sub(self, a, b):
        return ("binary", ("USub",), a, b)

    def elem(self, v):
        return ("unary", ("StructElem", "u64", 1), v)

    def k_init(self, h):
        a, b = self.id(), self.id()
        return ("let", [(a, ("id", 28), self.x(("id", 28))), (b, "u64", h())], self.sub(self.elem(("var", a, ("id", 28))), ("var", b, "u64")))

    def k_body(self, h):
        a = self.id()
        return ("let", [(a, "u64", self.x())], self.sub(h(), ("var", a, "u64")))

    def k_arg(self, h):
        k, p, q, v = self.id(), self.id(), self.id(), self.id()
        return ("let", [(v, "u64", self.x())], ("letcont", [(k, [(p, "u64"), (q, ("id", 28))], self.sub(self.sub(("var", p, "u64"), ("var", v, "u64")), self.elem(("var", q, ("id", 28)))))],
                ("if", self.x("u1"), ("contcall", k, [h(), self.x(("id", 28))], "u64"), self.x())))

    def k_cont(self, h):
        k, p = self.id(), self.id()
        return ("letcont", [(k, [(p, "u64")], self.sub(h(), ("var", p, "u64")))], ("contcall", k, [self.x()], "u64"))

    def k_under(self, h):
        k, p, v = self.id(), self.id(), self.id()
        return ("letcont", [(k, [(p, "u64")], ("var", p, "u64"))], ("let", [(v, ("id", 28), self.x(("id", 28)))],
                ("if", self.x("u1"), ("contcall", k, [self.elem(("var", v, ("id", 28)))], "u64"), self.sub(h(), self.elem(("var", v, ("id", 28)))))))

    def k_stack(self, h):
        a, b = self.id(), self.id()
        return ("let", [(a, ("ptr", ("id", 28)), ("alloc", "StackStatic", self.x(("id", 28)))), (b, ("ptr", "u64"), ("alloc", "StackStatic", h()))],
                self.sub(self.elem(("unary", ("Load",), ("var", a, ("ptr", ("id", 28))))), ("unary", ("Load",), ("var", b, ("ptr", "u64")))))

    def k_loop(self, h):
        a = self.id()
        return ("let", [(a, "u64", self.x())], ("seq", [("while", self.x("u1"), h())], ("var", a, "u64")))

    def k_if(self, h):
        return ("if", self.x("u1"), h(), self.x())

    def k_left(self, h):
        return self.sub(h(), self.x())

    def k_right(self, h):
        return self.sub(self.x(), h())

    def k_call(self, h):
        nm = "callee%d" % self.id()
        self.sigs[nm] = ("c", ["u64", ("id", 28), "f64"] + ["u64"] * 6, "u64")
        return ("call", "c", nm, "u64", [self.x(), self.x(("id", 28)), self.x("f64"), h()] + [self.x() for _ in range(5)])

    def k_struct(self, h):
        return self.elem(("struct", ("id", 28), [self.x(), h(), self.x()]))

    def apply(self, ks, last=None):
        last = last or self.x
        return getattr(self, ks[0])(lambda: self.apply(ks[1:], last)) if ks else last()


def scopes(mk, deep=False):
    out = []
    names = Scopes().forms
    chains = [(a, b) for a in names for b in names] + ([(a, b, c) for a in names for b in names for c in names] if deep else [])
    for ch in chains:
        s = Scopes()
        out.append(mk("scope:" + ".".join(x[2:] for x in ch), [], "u64", s.apply(ch), s.sigs))
    for a in names:
        for b in names:
            s = Scopes()
            out.append(mk("scope:%s-%s" % (a[2:], b[2:]), [], "u64", s.sub(s.apply([a]), s.apply([b])), s.sigs))
            if deep:
                for c in names:
                    s = Scopes()
                    out.append(mk("scope:%s(%s-%s)" % (c[2:], a[2:], b[2:]), [], "u64", s.apply([c], lambda: s.sub(s.apply([a]), s.apply([b]))), s.sigs))
    return out


class Gen:
    """instances of the forms"""

    def __init__(self, mk_case):
        self.mk_case = mk_case
        self.fs = forms()

    def leaf(self, name, t, sigs):
        sigs[name] = ("c", [], t)
        return ("call", "c", name, t, [])

    def fix_sigs(self, f, kids, sigs, types):
        """callees reached through a pointer are identified by the pointer's value"""
        for k, v in f.sigs.items():
            if k == ("ind",):
                sigs[("callee-of", 0)] = v
            elif k == ("std",):
                sigs[("callee-of", len(f.kids) - 1)] = v
            else:
                sigs[k] = v

    def instances(self, f, deep):
        """(suffix, params, kids, ret override)"""
        n = len(f.kids)
        yield "", [], [("leaf", i) for i in range(n)]
        if n:
            yield "/vars", None, [("var", i) for i in range(n)]
        if n > 1:
            for i in range(n):
                yield "/var%d" % i, None, [("var", j) if j == i else ("leaf", j) for j in range(n)]
        for i in range(n):
            if deep or f.group != "op":
                yield "/div%d" % i, [], [("ret", j) if j == i else ("leaf", j) for j in range(n)]
            yield "/cdiv%d" % i, [], [("cret", j) if j == i else ("leaf", j) for j in range(n)]

    def build(self, f, ins, odd, ret_t):
        """tree, params, sigs, ids of kids' callee pointers"""
        sigs = {}
        params, kids = [], []
        ptr = {}
        for i, (how, j) in enumerate(ins):
            t = f.kids[i]
            if how == "leaf":
                kids.append(self.leaf("leaf%d" % i, t, sigs))
                ptr[i] = "leaf%d#0" % i
            elif how == "var":
                params.append((i, t))
                kids.append(("var", i, t))
                ptr[i] = "p%d" % i
            else:
                r = ("return", self.leaf("retv", ret_t, sigs))
                if how == "ret":
                    kids.append(r)
                else:
                    kids.append(("if", self.leaf("choose", "u1", sigs), r, self.leaf("leaf%d" % i, t, sigs)))
                    ptr[i] = "leaf%d#0" % i
        self.fix_sigs(f, kids, sigs, None)
        E = f.build(*kids)
        diverges = f.ret is None or any(h == "ret" for h, _ in ins)
        return E, params, sigs, ptr, diverges

    def cases(self, groups, deep=False):
        for f in self.fs:
            if f.group not in groups:
                continue
            for suffix, _, ins in self.instances(f, deep):
                for odd in (False, True):
                    if odd and suffix.startswith("/var") and not deep:
                        continue
                    rt = S3 if odd else (f.ret if f.ret is not None else "u64")
                    if f.name.startswith("Return:"):
                        rt = f.kids[0] if not odd else None
                        if odd and suffix:
                            continue
                    if rt is None:
                        rt = f.kids[0]
                    E, params, sigs, ptr, div = self.build(f, ins, odd, rt)
                    if odd:
                        if f.ret is None and f.name.startswith("Return:"):
                            E = ("struct", S3, [self.leaf("ca", "u64", sigs), E, self.leaf("cb", "u64", sigs)])
                            E = ("seq", [E], self.leaf("tail", rt, sigs))
                        elif f.ret is None:
                            E = ("struct", S3, [self.leaf("ca", "u64", sigs), E, self.leaf("cb", "u64", sigs)])
                        else:
                            sigs["sink"] = ("c", [f.ret], "u64")
                            inner = E
                            if suffix == "":
                                # one of two branches that must agree on where the value is
                                sigs["pick"] = ("c", [], "u1")
                                inner = ("if", self.leaf("pick", "u1", sigs), E, self.leaf("other", f.ret, sigs))
                                use = ("let", [(90, f.ret, inner)], ("call", "c", "sink", "u64", [("var", 90, f.ret)]))
                            elif suffix == "/vars":
                                use = ("let", [(90, f.ret, E)], ("call", "c", "sink", "u64", [("var", 90, f.ret)]))
                            else:
                                use = ("call", "c", "sink", "u64", [E])
                            E = ("struct", S3, [self.leaf("ca", "u64", sigs), use, self.leaf("cb", "u64", sigs)])
                            if is_c_unsafe(f.ret):
                                # unions have no C signature: observe through memory
                                sigs.pop("sink")
                                sigs["dst"] = ("c", [], ("ptr", f.ret))
                                E = ("struct", S3, [self.leaf("ca", "u64", sigs), ("seq", [("binary", ("Store",), inner, self.leaf("dst", ("ptr", f.ret), sigs))], ("const", "int", "u64", False, 5)), self.leaf("cb", "u64", sigs)])
                    yield self.mk_case(f.name + suffix + ("/odd" if odd else ""), params, rt, E, sigs, ptr, f)


def is_c_unsafe(t):
    """types whose C passing class is not modelled (unions)"""
    if isinstance(t, tuple) and t[0] == "id":
        d = DEFS[t[1]]
        return d[0] == "union" or any(is_c_unsafe(x) for x in d[1])
    return False


# ---- functions: environments, entry conventions
ENVS = [(t,) for t in ALL] + [("u8", t, "u32") for t in ALL] + [(("id", 28), "u8", "f64", ("id", 39), "unit", "string"), ("env", "u8"), ("u16",) * 9]


class Pair:
    """a function with an environment, and an expression that makes such an environment"""

    def __init__(self, name, user, maker, key):
        self.name, self.user, self.maker, self.key = name, user, maker, key


def env_pairs(mk):
    """mk(name, params, ret, body, sigs, env=, kind=)"""
    out = []
    for n, tys in enumerate(ENVS):
        ct = lambda t: ("clos", (t,), "u64")
        for ret, params in (("u64", []), (S3, [(301, "u8"), (302, ("id", 39))])):
            sigs = {}
            elems = [(201 + i, t) for i, t in enumerate(tys)]
            seen = []
            for i, t in elems:
                nm = "obs%d" % i
                sigs[nm] = ("c", [], ct(t))
                sigs[("callee-of", nm, ct(t))] = ("std", [t], "u64")
                seen.append(("call", "std", ("call", "c", nm, ct(t), []), "u64", [("var", i, t)]))
            sigs["tail"] = ("c", [t for _, t in params] + ["env"], ret)
            body = ("seq", seen, ("call", "c", "tail", ret, [("var", i, t) for i, t in params] + [("var", 200, "env")]))
            user = mk("env-user:%s" % (tys,), params, ret, body, sigs, env=(200, elems))
            sigs = {}
            kids = []
            for i, t in enumerate(tys):
                sigs["leaf%d" % i] = ("c", [], t)
                kids.append(("call", "c", "leaf%d" % i, t, []))
            sigs["ca"] = ("c", [], "u64")
            E = ("env", "Heap", kids)
            makers = [mk("env:%s" % (tys,), [], "env", E, sigs)]
            makers.append(mk("env:%s/clo" % (tys,), [], CLOS, ("fun", 2, CLOS, E), sigs))
            s2 = dict(sigs)
            s2["sink"] = ("c", ["env"], "u64")
            makers.append(mk("env:%s/odd" % (tys,), [], S3, ("struct", S3, [("call", "c", "ca", "u64", []), ("call", "c", "sink", "u64", [E]), ("call", "c", "ca", "u64", [])]), s2))
            s3 = dict(sigs)
            s3["choose"] = ("c", [], "u1")
            s3["retv"] = ("c", [], "u64")
            for i, t in enumerate(tys):
                ks = list(kids)
                ks[i] = ("if", ("call", "c", "choose", "u1", []), ("return", ("call", "c", "retv", "u64", [])), kids[i])
                makers.append(mk("env:%s/cdiv%d" % (tys, i), [], "u64", ("seq", [("env", "Heap", ks)], ("call", "c", "retv", "u64", [])), s3))
                ks = list(kids)
                ks[i] = ("return", ("call", "c", "retv", "u64", []))
                makers.append(mk("env:%s/div%d" % (tys, i), [], "u64", ("env", "Heap", ks), s3))
            out.append(Pair("env:%s" % (tys,), user, makers if ret == "u64" else [], tuple(tys)))
    return out


def kinds(mk):
    """functions entered with the C convention"""
    out = []
    sx = ("syntax", "u64")
    for t in (S3, ("id", 36), ("id", 39)):
        out.append(mk("macro:%s" % (t,), [(1, sx)], t, ("call", "c", "expand", t, [("var", 1, sx)]), {"expand": ("c", [sx], t)}, kind="Macro"))
        out.append(mk("macro:%s/let" % (t,), [(1, sx)], t, ("let", [(2, t, ("call", "c", "expand", t, [("var", 1, sx)]))],
                      ("seq", [("call", "c", "again", "u64", [("var", 1, sx)])], ("var", 2, t))), {"expand": ("c", [sx], t), "again": ("c", [sx], "u64")}, kind="Macro"))
    out.append(mk("main", [], "u1", ("call", "c", "go", "u1", []), {"go": ("c", [], "u1")}, kind="Main"))
    out.append(mk("main/seq", [], "u1", ("let", [(5, ("id", 39), ("call", "c", "big", ("id", 39), []))], ("seq", [("call", "c", "go", "u1", [("var", 5, ("id", 39))])], ("const", "int", "u1", False, 1))),
                  {"go": ("c", [("id", 39)], "u1"), "big": ("c", [], ("id", 39))}, kind="Main"))
    out.append(mk("main/return", [], "u1", ("seq", [("if", ("call", "c", "go", "u1", []), ("return", ("const", "int", "u1", False, 0)), ("const", "unit"))], ("const", "int", "u1", False, 1)),
                  {"go": ("c", [], "u1")}, kind="Main"))
    # a reference to another function denotes that function
    f = mk("fun:other", [], CLOS, ("fun", 2, CLOS, None), {})
    f.others = {2: ([(1, "s32")], "s64", ("call", "c", "x", "s64", [("var", 1, "s32")])), 3: ([], "u64", ("call", "c", "y", "u64", []))}
    out.append(f)
    return out
