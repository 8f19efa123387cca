"""Values of the compiler's intermediate representation, built from the extracted type definitions."""
import struct
from absint import *

IR = "llrl::lowering::ir::"


class Builder:
    """constructor functions over the analysed enum definitions (a missing or reshaped variant is an error)"""

    def __init__(self, e, st):
        self.e, self.st, self.mir = e, st, e.mir
        mir = e.mir
        self.where = {}
        for p in mir.adts:
            if p.startswith(IR):
                self.where.setdefault(p.split("::")[-1], p)

    def box(self, v):
        return self.e.new_cell(self.st, v)

    def enum(self, ty, var, *fields):
        p = self.where[ty]
        for i, v in enumerate(self.mir.adts[p]["variants"]):
            if v["n"] == var:
                if len(v["fields"]) != len(fields):
                    raise KeyError("%s::%s has %d fields" % (ty, var, len(v["f"])))
                return ("adt", p, i, var, tuple(fields))
        raise KeyError("%s::%s" % (ty, var))

    def struct(self, ty, /, **kw):
        p = self.where[ty]
        fs = [f["n"] for f in self.mir.adts[p]["variants"][0]["fields"]]
        if set(fs) != set(kw):
            raise KeyError("%s has fields %s" % (ty, fs))
        return ("adt", p, 0, "", tuple(kw[f] for f in fs))

    def bstruct(self, ty, /, **kw):
        return self.box(self.struct(ty, **kw))

    def newtype(self, ty, v):
        return ("adt", self.where[ty], 0, "", (v,))

    # ---- identifiers
    def ctid(self, n):
        return self.newtype("CtId", I(n, "u32"))

    def rtid(self, n):
        return self.newtype("RtId", I(n, "u32"))

    # ---- types: python descriptions -> Ct values
    #   "unit" "string" "char" "f32" "f64" "env" "use" "u8".. "s64" | ("ptr", t) ("array", t) ("syntax", t) ("clos", [args], r) ("id", n)
    def ct(self, t):
        if isinstance(t, str):
            n = {"unit": "Unit", "string": "String", "char": "Char", "f32": "F32", "f64": "F64", "env": "Env", "use": "CapturedUse"}.get(t)
            if n:
                return self.enum("Ct", n)
            return self.enum("Ct", t[0].upper(), I(int(t[1:]), "usize"))
        if t[0] == "id":
            return self.enum("Ct", "Id", self.ctid(t[1]))
        if t[0] == "inst":                   # ("inst", generic, (args))
            return self.enum("Ct", "GenericInst", self.box(("tup", (self.ct(t[1]), arr(self.ct(x) for x in t[2])))))
        if t[0] == "get":                    # ("get", table, id)
            return self.enum("Ct", "TableGet", self.box(("tup", (self.ct(t[1]), self.ctid(t[2])))))
        if t[0] == "clos":
            return self.enum("Ct", "Clos", self.box(("tup", (arr(self.ct(x) for x in t[1]), self.ct(t[2])))))
        return self.enum("Ct", t[0].capitalize(), self.box(self.ct(t[1])))

    def rt(self, var, *fields):
        return self.enum("Rt", var, *fields)

    def op(self, kind, op):
        """("SAdd",) / ("SExt", type) / ("StructElem", type, n)"""
        fs = []
        for x in op[1:]:
            fs.append(I(x, "usize") if isinstance(x, int) else self.ct(x))
        return self.enum(kind, op[0], *fs)

    def term(self, x):
        """python tree -> Rt value"""
        k = x[0]
        T, C = self.term, self.ct
        tup = lambda *a: self.box(("tup", tuple(a)))
        if k == "var":
            return self.rt("Var", self.rtid(x[1]), C(x[2]))
        if k == "const":
            return self.rt("Const", self.const(x))
        if k == "fun":                       # ("fun", ctid | type, ty, env|None)
            return self.rt("StaticFun", self.bstruct("RtStaticFunCapture", fun=C(("id", x[1]) if isinstance(x[1], int) else x[1]), ty=C(x[2]), env=NONE if x[3] is None else some(T(x[3]))))
        if k == "call":                      # ("call", kind, callee, ret|None, args)
            c = {"std": lambda: self.enum("RtCallee", "Standard", T(x[2])),
                 "c": lambda: self.enum("RtCallee", "CDirect", ("s", x[2]), C(x[3])),
                 "ci": lambda: self.enum("RtCallee", "CIndirect", T(x[2]), C(x[3])),
                 "main": lambda: self.enum("RtCallee", "MainIndirect", T(x[2])),
                 "macro": lambda: self.enum("RtCallee", "MacroIndirect", T(x[2]), C(x[3]))}[x[1]]()
            return self.rt("Call", self.bstruct("RtCall", callee=c, args=arr(T(a) for a in x[4])))
        if k == "contcall":                  # ("contcall", id, args, ret|None)
            return self.rt("ContCall", self.bstruct("RtContCall", cont=self.rtid(x[1]), args=arr(T(a) for a in x[2]), ret=NONE if x[3] is None else some(C(x[3]))))
        if k == "nullary":
            return self.rt("Nullary", self.op("Nullary", x[1]))
        if k == "unary":
            return self.rt("Unary", tup(self.op("Unary", x[1]), T(x[2])))
        if k == "binary":
            return self.rt("Binary", tup(self.op("Binary", x[1]), T(x[2]), T(x[3])))
        if k == "ternary":
            return self.rt("Ternary", tup(self.op("Ternary", x[1]), T(x[2]), T(x[3]), T(x[4])))
        if k == "alloc":
            return self.rt("Alloc", tup(self.enum("Location", x[1]), T(x[2])))
        if k == "allocarray":
            return self.rt("AllocArray", tup(self.enum("Location", x[1]), C(x[2]), T(x[3])))
        if k == "env":
            return self.rt("ConstructEnv", tup(self.enum("Location", x[1]), arr(T(a) for a in x[2])))
        if k == "struct":
            return self.rt("ConstructStruct", tup(C(x[1]), arr(T(a) for a in x[2])))
        if k == "syntax":
            return self.rt("ConstructSyntax", tup(("sym", "metadata", ("adt", "llrl::ast::builtin::SyntaxMetadata", ())), T(x[1])))
        if k == "seq":
            return self.rt("Seq", tup(arr(T(a) for a in x[1]), T(x[2])))
        if k == "if":
            return self.rt("If", tup(T(x[1]), T(x[2]), T(x[3])))
        if k == "while":
            return self.rt("While", tup(T(x[1]), T(x[2])))
        if k == "return":
            return self.rt("Return", self.box(T(x[1])))
        if k == "never":
            return self.rt("Never")
        # forms that only occur before lowering
        if k == "data":                      # ("data", type, index, [args])
            return self.rt("ConstructData", tup(C(x[1]), I(x[2], "usize"), arr(T(a) for a in x[3])))
        if k in ("and", "or"):
            return self.rt(k.capitalize(), tup(T(x[1]), T(x[2])))
        if k == "match":                     # ("match", target, [(pattern, body)])
            return self.rt("Match", tup(T(x[1]), arr(self.struct("RtClause", pat=self.pat(p), body=T(b)) for p, b in x[2])))
        if k == "localfun":                  # ("localfun", id, (type args), type)
            return self.rt("LocalFun", self.bstruct("RtLocalFunInst", fun=self.rtid(x[1]), args=arr(C(a) for a in x[2]), ty=C(x[3])))
        if k == "letfun":                    # ("letfun", [(id, [type parameters], [(id, ty)], ret, body)], body)
            return self.rt("LetLocalFun", tup(arr(self.struct("RtLocalFun", id=self.rtid(i), ct_params=arr(self.ctid(c) for c in cs),
                                                             params=self.params(ps), ret=C(r), body=T(b)) for i, cs, ps, r, b in x[1]), T(x[2])))
        if k == "let":                       # ("let", [(id, ty, init)], body)
            return self.rt("LetVar", tup(arr(self.struct("RtVar", id=self.rtid(i), ty=C(t), init=T(e)) for i, t, e in x[1]), T(x[2])))
        if k == "letcont":                   # ("letcont", [(id, [(id, ty)], body)], body)
            return self.rt("LetCont", tup(arr(self.struct("RtCont", id=self.rtid(i), params=self.params(ps), body=T(b)) for i, ps, b in x[1]), T(x[2])))
        raise KeyError(k)

    def pat(self, p):
        k = p[0]
        C, P = self.ct, self.pat
        if k == "pvar":                      # ("pvar", id, ty, pattern|None)
            return self.enum("RtPat", "Var", self.rtid(p[1]), C(p[2]), NONE if p[3] is None else some(self.box(P(p[3]))))
        if k == "pwild":
            return self.enum("RtPat", "Wildcard", C(p[1]))
        if k == "pnull":
            return self.enum("RtPat", "Null", C(p[1]))
        if k in ("pderef", "pnonnull", "psyntax"):
            return self.enum("RtPat", {"pderef": "Deref", "pnonnull": "NonNull", "psyntax": "Syntax"}[k], self.box(P(p[1])))
        if k == "pdata":                     # ("pdata", ty, index, [patterns])
            return self.enum("RtPat", "Data", C(p[1]), I(p[2], "usize"), arr(P(a) for a in p[3]))
        if k == "pstruct":
            return self.enum("RtPat", "Struct", C(p[1]), arr(P(a) for a in p[2]))
        if k == "preint":
            return self.enum("RtPat", "Reinterpret", C(p[1]), self.box(P(p[2])))
        if k == "pconst":                    # ("pconst", constant)
            return self.enum("RtPat", "Const", self.const(p[1]))
        raise KeyError(k)

    def params(self, ps):
        return arr(self.struct("RtParam", id=self.rtid(i), ty=self.ct(t)) for i, t in ps)

    def const(self, x):
        k = x[1]
        if k == "int":                       # ("const", "int", ty, signed, value)
            return self.enum("Const", "Integer", self.ct(x[2]), B(x[3]), I(x[4], "u64"))
        if k == "fp":
            return self.enum("Const", "FPNumber", self.ct(x[2]), ("adt", "ordered_float::OrderedFloat", 0, "", (I(struct.unpack("<Q", struct.pack("<d", x[3]))[0], "f64"),)))
        if k == "str":
            return self.enum("Const", "String", ("s", x[2]))
        if k == "char":
            return self.enum("Const", "Char", I(x[2], "char"))
        if k == "unit":
            return self.enum("Const", "Unit")
        raise KeyError(k)

    def function(self, params, ret, body, env=None, kind="Standard", transparent=False):
        """env: None | (id, [(id, ty)])"""
        return self.struct("Function", env=NONE if env is None else some(self.struct("FunctionEnv", id=self.rtid(env[0]), elems=self.params(env[1]))),
                           params=self.params(params), ret=self.ct(ret), body=self.term(body), kind=self.enum("FunctionKind", kind), transparent=B(transparent))

    def def_(self, d):
        """("struct", [tys]) | ("union", [tys]) | ("fn", function value) | ("fun", params, ret, body, transparent) |
        ("data", repr, [[tys]]) | ("alias", ty) | ("table", [(id, ty)]) | ("generic", [ids], def)"""
        if d[0] == "fun":
            return self.enum("Def", "Function", self.function(d[1], d[2], d[3], transparent=d[4]))
        if d[0] == "data":
            return self.enum("Def", "Data", self.struct("Data", repr=self.enum("DataRepr", d[1]), cons=arr(arr(self.ct(t) for t in c) for c in d[2])))
        if d[0] == "alias":
            return self.enum("Def", "Alias", self.ct(d[1]))
        if d[0] == "table":
            return self.enum("Def", "AliasTable", self.struct("AliasTable", map=("map", None, tuple((self.ctid(i), self.ct(t)) for i, t in sorted(d[1])))))
        if d[0] == "generic":
            return self.enum("Def", "Generic", arr(self.ctid(i) for i in d[1]), self.box(self.def_(d[2])))
        if d[0] == "struct":
            return self.enum("Def", "Struct", self.struct("Struct", repr=self.enum("StructRepr", "Standard"), fields=arr(self.ct(t) for t in d[1])))
        if d[0] == "union":
            return self.enum("Def", "Union", self.struct("Union", tys=arr(self.ct(t) for t in d[1])))
        return self.enum("Def", "Function", d[1])


def arr(xs):
    return ("arr", tuple(xs))


class Reader:
    """the inverse of Builder: IR values -> python trees (anything not fully determined is an error)"""

    def __init__(self, e, st):
        self.e, self.st = e, st

    def v(self, x):
        x = self.e.res(self.st, x)
        while x[0] == "ref":
            x = self.e.res(self.st, self.e.load(self.st, x[1], x[2]))
        if x[0] not in ("adt", "tup", "arr", "i", "s", "b", "map"):
            raise ValueError("undetermined value %s" % (x[0],) + str(x)[:200])
        return x

    def variant(self, x):
        x = self.v(x)
        if x[0] != "adt":
            raise ValueError("not an enum value: %s" % str(x)[:100])
        return x[3], x[4]

    def seq(self, x):
        x = self.v(x)
        if x[0] != "arr":
            raise ValueError("not a sequence: %s" % str(x)[:100])
        return x[1]

    def tup(self, x):
        x = self.v(x)
        if x[0] != "tup":
            raise ValueError("not a tuple: %s" % str(x)[:100])
        return x[1]

    def fields(self, x):
        x = self.v(x)
        fs = [f["n"] for f in self.e.mir.adts[x[1]]["variants"][x[2]]["fields"]]
        return dict(zip(fs, x[4]))

    def int(self, x):
        x = self.v(x)
        if x[0] != "i":
            raise ValueError("not an integer: %s" % str(x)[:100])
        return x[1]

    def id(self, x):
        return self.int(self.v(x)[4][0])

    def opt(self, x, f):
        n, a = self.variant(x)
        return f(a[0]) if n == "Some" else None

    def ct(self, x):
        n, a = self.variant(x)
        simple = {"Unit": "unit", "String": "string", "Char": "char", "F32": "f32", "F64": "f64", "Env": "env", "CapturedUse": "use"}
        if n in simple:
            return simple[n]
        if n in ("S", "U"):
            return n.lower() + str(self.int(a[0]))
        if n == "Id":
            return ("id", self.id(a[0]))
        if n in ("Ptr", "Array", "Syntax"):
            return (n.lower(), self.ct(a[0]))
        p, q = self.tup(a[0])
        if n == "GenericInst":
            return ("inst", self.ct(p), tuple(self.ct(y) for y in self.seq(q)))
        if n == "TableGet":
            return ("get", self.ct(p), self.id(q))
        if n == "Clos":
            return ("clos", tuple(self.ct(y) for y in self.seq(p)), self.ct(q))
        raise ValueError(n)

    def op(self, x):
        n, a = self.variant(x)
        return (n,) + tuple(self.v(y)[1] if self.v(y)[0] == "i" else self.ct(y) for y in a)

    def const(self, x):
        n, a = self.variant(x)
        if n == "Integer":
            return ("const", "int", self.ct(a[0]), bool(self.int(a[1])), self.int(a[2]))
        if n == "FPNumber":
            b = self.int(self.v(a[1])[4][0])
            return ("const", "fp", self.ct(a[0]), struct.unpack("<d", struct.pack("<Q", b))[0])
        if n == "String":
            return ("const", "str", self.v(a[0])[1])
        if n == "Char":
            return ("const", "char", self.int(a[0]))
        if n == "Unit":
            return ("const", "unit")
        raise ValueError(n)

    def params(self, x):
        return [(self.id(f["id"]), self.ct(f["ty"])) for f in map(self.fields, self.seq(x))]

    def term(self, x):
        n, a = self.variant(x)
        T, C = self.term, self.ct
        L = lambda y: [T(z) for z in self.seq(y)]
        if n == "Var":
            return ("var", self.id(a[0]), C(a[1]))
        if n == "Const":
            return self.const(a[0])
        if n == "StaticFun":
            f = self.fields(a[0])
            t = C(f["fun"])
            return ("fun", t[1] if t[0] == "id" else t, C(f["ty"]), self.opt(f["env"], T))
        if n == "Call":
            f = self.fields(a[0])
            k, c = self.variant(f["callee"])
            args = L(f["args"])
            if k == "Standard":
                return ("call", "std", T(c[0]), None, args)
            if k == "CDirect":
                return ("call", "c", self.v(c[0])[1], C(c[1]), args)
            if k in ("CIndirect", "MacroIndirect"):
                return ("call", "ci" if k[0] == "C" else "macro", T(c[0]), C(c[1]), args)
            return ("call", "main", T(c[0]), None, args)
        if n == "ContCall":
            f = self.fields(a[0])
            return ("contcall", self.id(f["cont"]), L(f["args"]), self.opt(f["ret"], C))
        if n == "Nullary":
            return ("nullary", self.op(a[0]))
        if n in ("Unary", "Binary", "Ternary"):
            p = self.tup(a[0])
            return (n.lower(), self.op(p[0])) + tuple(T(y) for y in p[1:])
        if n == "Alloc":
            p = self.tup(a[0])
            return ("alloc", self.variant(p[0])[0], T(p[1]))
        if n == "AllocArray":
            p = self.tup(a[0])
            return ("allocarray", self.variant(p[0])[0], C(p[1]), T(p[2]))
        if n == "ConstructEnv":
            p = self.tup(a[0])
            return ("env", self.variant(p[0])[0], L(p[1]))
        if n == "ConstructStruct":
            p = self.tup(a[0])
            return ("struct", C(p[0]), L(p[1]))
        if n == "ConstructSyntax":
            return ("syntax", T(self.tup(a[0])[1]))
        if n == "ConstructData":
            p = self.tup(a[0])
            return ("data", C(p[0]), self.int(p[1]), L(p[2]))
        if n == "Seq":
            p = self.tup(a[0])
            return ("seq", L(p[0]), T(p[1]))
        if n in ("If", "While", "And", "Or"):
            return (n.lower(),) + tuple(T(y) for y in self.tup(a[0]))
        if n == "Match":
            p = self.tup(a[0])
            return ("match", T(p[0]), [(self.pat(f["pat"]), T(f["body"])) for f in map(self.fields, self.seq(p[1]))])
        if n == "Return":
            return ("return", T(a[0]))
        if n == "Never":
            return ("never",)
        if n == "LocalFun":
            f = self.fields(a[0])
            return ("localfun", self.id(f["fun"]), tuple(C(y) for y in self.seq(f["args"])), C(f["ty"]))
        if n == "LetVar":
            p = self.tup(a[0])
            return ("let", [(self.id(f["id"]), C(f["ty"]), T(f["init"])) for f in map(self.fields, self.seq(p[0]))], T(p[1]))
        if n == "LetCont":
            p = self.tup(a[0])
            return ("letcont", [(self.id(f["id"]), self.params(f["params"]), T(f["body"])) for f in map(self.fields, self.seq(p[0]))], T(p[1]))
        if n == "LetLocalFun":
            p = self.tup(a[0])
            return ("letfun", [(self.id(f["id"]), [self.id(c) for c in self.seq(f["ct_params"])], self.params(f["params"]), C(f["ret"]), T(f["body"]))
                               for f in map(self.fields, self.seq(p[0]))], T(p[1]))
        raise ValueError(n)

    def pat(self, x):
        return (self.variant(x)[0],)

    def def_(self, x):
        n, a = self.variant(x)
        if n == "Alias":
            return ("alias", self.ct(a[0]))
        if n in ("Generic", "AliasTable", "Data"):
            return (n.lower(),)
        f = self.fields(a[0])
        if n == "Struct":
            return ("struct", self.variant(f["repr"])[0], [self.ct(y) for y in self.seq(f["fields"])])
        if n == "Union":
            return ("union", [self.ct(y) for y in self.seq(f["tys"])])
        env = None
        k, o = self.variant(f["env"])
        if k == "Some":
            g = self.fields(o[0])
            env = (self.id(g["id"]), self.params(g["elems"]))
        return ("function", env, self.params(f["params"]), self.ct(f["ret"]), self.term(f["body"]), self.variant(f["kind"])[0], bool(self.int(f["transparent"])))


def callees(x, out):
    """the functions whose addresses an expression takes, with their closure types"""
    if isinstance(x, tuple) and x[:1] == ("fun",) and len(x) == 4:
        out[x[1]] = ([(1000 + i, t) for i, t in enumerate(x[2][1])], x[2][2], ("never",), (999, []) if x[3] is not None else None)
    if isinstance(x, (tuple, list)):
        for y in x:
            callees(y, out)
    return out
