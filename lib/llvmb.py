"""The LLVM code generator as analysed code: the module it builds through the LLVM C interface for IR definitions, and the
meaning of that module over terms.

The analysed program is the Rust code of llrl::backend::llvm and of the wrapper crate llvm; only the foreign functions
`llvm_sys::LLVM*` are given a meaning here (types, constants, instructions, positions of the builder, layout queries)."""
import re
import struct as _struct
from absint import *
import absint
from facts import Mir
import iomodel, stdmodels, irb
import terms as T
import x86sym as X
import rtspec as R
import chibi
from chibi import Emit, Case, BUILTINS
from terms import mk, bytes_of, K, V, EQ, NOT

AR = "llrl::backend::llvm::artifact::"
TYPE_KINDS = ["Void", "Half", "Float", "Double", "X86_FP80", "FP128", "PPC_FP128", "Label", "Integer", "Function", "Struct", "Array", "Pointer",
              "Vector", "Metadata", "X86_MMX", "Token", "ScalableVector", "BFloat"]
FOREIGN = {
    "LLVMTypeKind": [("LLVM%sTypeKind" % n, i) for i, n in enumerate(TYPE_KINDS)],
    "LLVMIntPredicate": [("LLVMInt" + n, 32 + i) for i, n in enumerate(["EQ", "NE", "UGT", "UGE", "ULT", "ULE", "SGT", "SGE", "SLT", "SLE"])],
    "LLVMRealPredicate": [("LLVMRealPredicateFalse", 0)] + [("LLVMReal" + n, 1 + i) for i, n in enumerate(
        ["OEQ", "OGT", "OGE", "OLT", "OLE", "ONE", "ORD", "UNO", "UEQ", "UGT", "UGE", "ULT", "ULE", "UNE"])] + [("LLVMRealPredicateTrue", 15)],
    "LLVMLinkage": [("LLVM%sLinkage" % n, i) for i, n in enumerate(["External", "AvailableExternally", "LinkOnceAny", "LinkOnceODR", "LinkOnceODRAutoHide",
        "WeakAny", "WeakODR", "Appending", "Internal", "Private", "DLLImport", "DLLExport", "ExternalWeak", "Ghost", "Common", "LinkerPrivate", "LinkerPrivateWeak"])],
}


def foreign_adts(mir):
    for n, vs in FOREIGN.items():
        p = "llvm_sys::" + n
        mir.adts.setdefault(p, {"p": p, "kind": "Enum", "repr": "", "reprc": 1, "gen": [], "variants": [{"n": v, "discr": d, "fields": []} for v, d in vs],
                                "layout": {"size": 4, "align": 4, "offs": []}, "file": "", "line": 0, "crate": "llvm_sys"})


def variant(en, name):
    for i, (v, d) in enumerate(FOREIGN[en]):
        if v == name:
            return ("adt", "llvm_sys::" + en, i, v, ())
    raise KeyError(name)


class LV:
    """a value of the module"""

    def __init__(self, k, ty, *a):
        self.k, self.ty, self.a = k, ty, a


class Block:
    def __init__(self, fn, name):
        self.fn, self.name, self.insts = fn, name, []


class Fn:
    def __init__(self, name, ty):
        self.name, self.ty, self.blocks = name, ty, []
        self.val = LV("fn", ("p", ty), self)
        self.params = [LV("param", t, i) for i, t in enumerate(ty[2])]


class Builder:
    def __init__(self):
        self.block, self.pos = None, None


BIN = {"Add": "add", "NSWAdd": "add", "Sub": "sub", "NSWSub": "sub", "Mul": "mul", "NSWMul": "mul", "SDiv": "sdiv", "UDiv": "udiv", "SRem": "srem", "URem": "urem",
       "Shl": "shl", "AShr": "ashr", "LShr": "lshr", "And": "and", "Or": "or", "Xor": "xor", "FAdd": "fadd", "FSub": "fsub", "FMul": "fmul", "FDiv": "fdiv", "FRem": "fmod",
       "ExactSDiv": "?exact", "ExactUDiv": "?exact", "NUWAdd": "?nuw", "NUWSub": "?nuw", "NUWMul": "?nuw"}
CONV = {"Trunc", "ZExt", "SExt", "FPToUI", "FPToSI", "UIToFP", "SIToFP", "FPTrunc", "FPExt", "PtrToInt", "IntToPtr", "BitCast"}
UN = {"Neg", "NSWNeg", "FNeg", "Not"}


class World:
    """the LLVM context and module behind the foreign functions of one run"""

    def __init__(self):
        self.objs, self.cells = [], {}
        self.fns, self.globals, self.structs = {}, [], {}
        self.bad = []

    # ---- handles
    def ref(self, e, st, kind, o):
        key = (kind, o) if kind == "ty" else (kind, id(o))
        if key not in self.cells:
            self.objs.append((kind, o))
            self.cells[key] = e.new_cell(st, ("sym", "ll%d" % (len(self.objs) - 1), ("?",)))
        return self.cells[key]

    def get(self, e, st, v, kind=None):
        s = e.snap(st, v)
        while s[0] == "adt" and s[4]:
            s = s[4][0]
        if s[0] != "sym" or not str(s[1]).startswith("ll"):
            raise Emit("an LLVM handle is unknown: %s" % absint.show(s)[:120])
        k, o = self.objs[int(s[1][2:])]
        if kind and k != kind:
            raise Emit("an LLVM %s where a %s is expected" % (k, kind))
        return o

    def many(self, e, st, v, n, kind):
        s = e.snap(st, v)
        xs = self.elems(s)
        if n[0] != "i" or n[1] > len(xs):
            raise Emit("%s handles of %d passed to LLVM" % (absint.show(n), len(xs)))
        return [self.get(e, st, x, kind) for x in xs[:n[1]]]

    def elems(self, s):
        if s[0] == "arr":
            return s[1]
        if s[0] == "adt" and len(s[4]) == 1:
            return self.elems(s[4][0])
        raise Emit("an array passed to LLVM is unknown: %s" % absint.show(s)[:100])

    def num(self, v):
        if v[0] != "i":
            raise Emit("a number passed to LLVM is unknown: %s" % absint.show(v)[:100])
        return v[1]

    def text(self, e, st, v):
        s = e.snap(st, v)
        if s[0] == "s":
            return s[1]
        if s[0] == "b":
            return bytes(s[1]).decode()
        if s[0] == "adt" and s[1] == "$CString":
            return bytes(x[1] for x in s[4][0][1]).rstrip(b"\0").decode()
        if s[0] == "arr":
            return bytes(x[1] for x in s[1]).rstrip(b"\0").decode()
        raise Emit("a string passed to LLVM is unknown: %s" % absint.show(s)[:100])

    # ---- layout (x86-64)
    def lay(self, t):
        if t == "f32":
            return 4, 4
        if t == "f64":
            return 8, 8
        if t[0] == "i":
            n = 1
            while n * 8 < t[1]:
                n *= 2
            return n, min(n, 8) if n < 16 else 8
        if t[0] == "p":
            return 8, 8
        if t[0] == "a":
            n, a = self.lay(t[1])
            return n * t[2], a
        if t[0] in ("s", "n"):
            off, al = 0, 1
            packed = self.packed(t)
            for f in self.body(t):
                n, a = self.lay(f)
                if not packed:
                    off += -off % a
                    al = max(al, a)
                off += n
            return off + -off % al, al
        raise Emit("the layout of the LLVM type %s is asked for" % (t,))

    def body(self, t):
        if t[0] == "s":
            return t[1]
        b = self.structs.get(t[1])
        if b is None:
            raise Emit("an opaque struct is used")
        return b[0]

    def packed(self, t):
        return t[2] if t[0] == "s" else self.structs[t[1]][1]

    def field(self, t, i):
        """(offset, type) of an element of an aggregate"""
        if t[0] == "a":
            return self.lay(t[1])[0] * i, t[1]
        off = 0
        fs = self.body(t)
        for j, f in enumerate(fs):
            n, a = self.lay(f)
            if not self.packed(t):
                off += -off % a
            if j == i:
                return off, f
            off += n
        raise Emit("element %d of a type with %d" % (i, len(fs)))

    def leaves(self, t):
        """[(offset, scalar type)]"""
        if t[0] == "a":
            n = self.lay(t[1])[0]
            sub = self.leaves(t[1])
            return [(i * n + o, x) for i in range(t[2]) for o, x in sub]
        if t[0] in ("s", "n"):
            return [(self.field(t, i)[0] + o, x) for i, f in enumerate(self.body(t)) for o, x in self.leaves(f)]
        return [(0, t)]

    def sized(self, t):
        return t != "void" and not (isinstance(t, tuple) and t[0] == "f")

    # ---- instructions
    def put(self, b, op, ty, *a):
        if b.block is None:
            raise Emit("an instruction is built without a position")
        v = LV("inst", ty, op, a)
        if b.pos is None:
            b.block.insts.append(v)
        else:
            i = b.block.insts.index(b.pos)
            b.block.insts.insert(i, v)
        return v

    def want(self, c, what):
        if not c:
            self.bad.append(what)

    def call_ffi(self, e, st, n, args):
        """the value of a call of a foreign function"""
        g = lambda i, k=None: self.get(e, st, args[i], k)
        ty = lambda t: self.ref(e, st, "ty", t)
        val = lambda v: self.ref(e, st, "val", v)
        num = lambda i: self.num(args[i])
        I32 = lambda x: I(int(x), "i32")
        if n.startswith("LLVMBuild"):
            return val(self.build(e, st, n[9:], g(0, "bld"), args))
        # contexts, modules, builders
        if n in ("LLVMGetTypeContext", "LLVMGetModuleContext"):
            return self.ctx
        if n == "LLVMCreateBuilderInContext":
            return self.ref(e, st, "bld", Builder())
        if n == "LLVMDisposeBuilder" or n == "LLVMDisposeTargetData":
            return UNIT
        if n == "LLVMPositionBuilderAtEnd":
            b = g(0, "bld")
            b.block, b.pos = g(1, "bb"), None
            return UNIT
        if n == "LLVMPositionBuilderBefore":
            b, i = g(0, "bld"), g(1, "val")
            b.block = next(bb for f in self.fns.values() for bb in f.blocks if i in bb.insts)
            b.pos = i
            return UNIT
        if n == "LLVMGetInsertBlock":
            return self.ref(e, st, "bb", g(0, "bld").block)
        if n == "LLVMGetBasicBlockParent":
            return val(g(0, "bb").fn.val)
        if n == "LLVMGetFirstInstruction":
            b = g(0, "bb")
            return val(b.insts[0]) if b.insts else I(0, "usize")
        if n == "LLVMGetBasicBlockTerminator":
            b = g(0, "bb")
            return val(b.insts[-1]) if b.insts and b.insts[-1].a[0] in TERM else I(0, "usize")
        if n in ("LLVMGetEntryBasicBlock", "LLVMGetFirstBasicBlock"):
            f = g(0, "val").a[0]
            return self.ref(e, st, "bb", f.blocks[0]) if f.blocks else I(0, "usize")
        if n == "LLVMCountBasicBlocks":
            return I(len(g(0, "val").a[0].blocks), "u32")
        if n == "LLVMAppendBasicBlockInContext":
            f = g(1, "val").a[0]
            f.blocks.append(Block(f, self.text(e, st, args[2])))
            return self.ref(e, st, "bb", f.blocks[-1])
        if n == "LLVMAddFunction":
            nm = self.text(e, st, args[1])
            while nm in self.fns:
                nm += ".1"                    # LLVM renames a second function of the same name
            self.fns[nm] = Fn(nm, g(2, "ty"))
            return val(self.fns[nm].val)
        if n == "LLVMAddGlobal":
            t = g(1, "ty")
            v = LV("global", ("p", t), {"name": self.text(e, st, args[2]), "init": None, "const": False, "linkage": "LLVMExternalLinkage", "i": len(self.globals)})
            self.globals.append(v)
            return val(v)
        if n == "LLVMSetInitializer":
            g(0).a[0]["init"] = g(1, "val")
            return UNIT
        if n == "LLVMSetLinkage":
            g(0).a[0]["linkage"] = e.snap(st, args[1])[3]
            return UNIT
        if n == "LLVMSetGlobalConstant":
            g(0).a[0]["const"] = bool(num(1))
            return UNIT
        if n == "LLVMCountParams":
            return I(len(g(0, "val").a[0].params), "u32")
        if n == "LLVMGetParam":
            return val(g(0, "val").a[0].params[num(1)])
        if n == "LLVMGetParams":
            self.fill(e, st, args[1], [val(p) for p in g(0, "val").a[0].params])
            return UNIT
        if n == "LLVMAddIncoming":
            p = g(0, "val")
            vs, bs, k = self.many(e, st, args[1], args[3], "val"), self.many(e, st, args[2], args[3], "bb"), num(3)
            for v, b in zip(vs, bs):
                self.want(v.ty == p.ty, "a phi of type %s receives %s" % (self.show(p.ty), self.show(v.ty)))
                p.a[1].append((v, b))
            return UNIT
        # types
        if n == "LLVMIntTypeInContext":
            return ty(("i", num(1)))
        if n in ("LLVMInt1TypeInContext", "LLVMInt8TypeInContext", "LLVMInt16TypeInContext", "LLVMInt32TypeInContext", "LLVMInt64TypeInContext"):
            return ty(("i", int(n[7:-13])))
        if n == "LLVMFloatTypeInContext":
            return ty("f32")
        if n == "LLVMDoubleTypeInContext":
            return ty("f64")
        if n == "LLVMVoidTypeInContext":
            return ty("void")
        if n == "LLVMPointerType":
            return ty(("p", g(0, "ty")))
        if n == "LLVMArrayType":
            return ty(("a", g(0, "ty"), num(1)))
        if n == "LLVMStructTypeInContext":
            return ty(("s", tuple(self.many(e, st, args[1], args[2], "ty")), bool(num(3))))
        if n == "LLVMStructCreateNamed":
            self.structs_n = getattr(self, "structs_n", 0) + 1
            self.structs[self.structs_n] = None
            return ty(("n", self.structs_n))
        if n == "LLVMIsOpaqueStruct":
            t = g(0, "ty")
            return I32(t[0] == "n" and self.structs[t[1]] is None)
        if n == "LLVMIsLiteralStruct":
            return I32(g(0, "ty")[0] == "s")
        if n == "LLVMStructSetBody":
            self.structs[g(0, "ty")[1]] = (tuple(self.many(e, st, args[1], args[2], "ty")), bool(num(3)))
            return UNIT
        if n == "LLVMCountStructElementTypes":
            return I(len(self.body(g(0, "ty"))), "u32")
        if n == "LLVMGetStructElementTypes":
            self.fill(e, st, args[1], [ty(t) for t in self.body(g(0, "ty"))])
            return UNIT
        if n == "LLVMFunctionType":
            self.want(not num(3), "a function with variable arguments")
            return ty(("f", g(0, "ty"), tuple(self.many(e, st, args[1], args[2], "ty"))))
        if n == "LLVMGetReturnType":
            return ty(g(0, "ty")[1])
        if n == "LLVMCountParamTypes":
            return I(len(g(0, "ty")[2]), "u32")
        if n == "LLVMGetParamTypes":
            self.fill(e, st, args[1], [ty(t) for t in g(0, "ty")[2]])
            return UNIT
        if n == "LLVMGetElementType":
            t = g(0, "ty")
            self.want(t[0] in ("p", "a"), "the element of a %s" % self.show(t))
            return ty(t[1])
        if n == "LLVMGetArrayLength":
            return I(g(0, "ty")[2], "u32")
        if n == "LLVMGetIntTypeWidth":
            return I(g(0, "ty")[1], "u32")
        if n == "LLVMGetTypeKind":
            t = g(0, "ty")
            k = {"f32": "Float", "f64": "Double", "void": "Void"}.get(t) if isinstance(t, str) else {"i": "Integer", "p": "Pointer", "s": "Struct", "n": "Struct", "a": "Array", "f": "Function"}[t[0]]
            return variant("LLVMTypeKind", "LLVM%sTypeKind" % k)
        if n == "LLVMTypeIsSized":
            return I32(self.sized(g(0, "ty")))
        if n == "LLVMTypeOf":
            return ty(g(0, "val").ty)
        if n == "LLVMGlobalGetValueType":
            return ty(g(0, "val").ty[1])
        if n in ("LLVMABISizeOfType", "LLVMStoreSizeOfType", "LLVMSizeOfTypeInBits", "LLVMABIAlignmentOfType", "LLVMPreferredAlignmentOfType"):
            t = g(1, "ty")
            if n == "LLVMStoreSizeOfType":
                return I(-(-self.bits(t) // 8), "u64")
            if n == "LLVMSizeOfTypeInBits":
                return I(self.bits(t), "u64")
            if n == "LLVMPreferredAlignmentOfType":
                return I(8 if t[0] in ("s", "n") else self.lay(t)[1], "u32")
            return I(self.lay(t)[0], "u64") if n == "LLVMABISizeOfType" else I(self.lay(t)[1], "u32")
        if n == "LLVMCopyStringRepOfTargetData" or n == "LLVMCreateTargetData":
            return self.dl
        # constants
        if n == "LLVMConstInt":
            t, v = g(0, "ty"), args[1]
            if v[0] == "i":
                return val(LV("int", t, v[1] & ((1 << t[1]) - 1)))
            return val(LV("symint", t, e.snap(st, v)))
        if n == "LLVMConstReal":
            t, v = g(0, "ty"), args[1]
            self.want(t in ("f32", "f64"), "a real constant of type %s" % self.show(t))
            if v[0] != "i":
                raise Emit("a real constant is unknown: %s" % absint.show(v)[:80])
            return val(LV("fp", t, _struct.unpack("<d", _struct.pack("<Q", v[1]))[0]))
        if n in ("LLVMConstPointerNull", "LLVMConstNull"):
            return val(LV("null", g(0, "ty")))
        if n == "LLVMConstAllOnes":
            t = g(0, "ty")
            return val(LV("int", t, (1 << t[1]) - 1))
        if n == "LLVMGetUndef":
            return val(LV("undef", g(0, "ty")))
        if n == "LLVMSizeOf":
            return val(LV("int", ("i", 64), self.lay(g(0, "ty"))[0]))
        if n == "LLVMAlignOf":
            return val(LV("int", ("i", 64), self.lay(g(0, "ty"))[1]))
        if n == "LLVMConstStructInContext":
            vs = self.many(e, st, args[1], args[2], "val")
            return val(LV("agg", ("s", tuple(v.ty for v in vs), bool(num(3))), vs))
        if n == "LLVMConstNamedStruct":
            t = g(0, "ty")
            return val(LV("agg", t, self.many(e, st, args[1], args[2], "val")))
        if n == "LLVMConstArray":
            t, vs = g(0, "ty"), self.many(e, st, args[1], args[2], "val")
            for v in vs:
                self.want(v.ty == t, "an array of %s with an element of type %s" % (self.show(t), self.show(v.ty)))
            return val(LV("agg", ("a", t, len(vs)), vs))
        if n == "LLVMConstStringInContext":
            s = self.text(e, st, args[1]).encode()
            k = num(2)
            bs = s[:k] + (b"" if num(3) else b"\0")
            return val(LV("data", ("a", ("i", 8), len(bs)), bs))
        if n in ("LLVMConstBitCast", "LLVMConstTruncOrBitCast", "LLVMConstPtrToInt", "LLVMConstIntToPtr"):
            v, t = g(0, "val"), g(1, "ty")
            if v.ty == t:
                return val(v)
            if n == "LLVMConstTruncOrBitCast" and v.k == "int":
                return val(LV("int", t, v.a[0] & ((1 << t[1]) - 1)))
            return val(LV("cast", t, n[9:], v))
        if n.startswith("LLVMIsA"):
            v = g(0, "val")
            k = n[7:]
            c = {"Constant": v.k not in ("inst", "param", "phi"), "ConstantInt": v.k == "int", "Function": v.k == "fn", "PHINode": v.k == "inst" and v.a[0] == "phi",
                 "GlobalVariable": v.k == "global", "ConstantFP": v.k == "fp"}.get(k)
            if c is None:
                raise Emit("unmodelled " + n)
            return args[0] if c else I(0, "usize")
        if n == "LLVMIsConstant":
            return I32(g(0, "val").k not in ("inst", "param"))
        if n == "LLVMConstIntGetZExtValue":
            return I(g(0, "val").a[0], "u64")
        if n in ("LLVMSetValueName2", "LLVMSetUnnamedAddress"):
            return UNIT
        raise Emit("the foreign function %s is not modelled" % n)

    def bits(self, t):
        return t[1] if t[0] == "i" else self.lay(t)[0] * 8

    def fill(self, e, st, dest, xs):
        """write handles to a buffer of the caller"""
        v = st.heap[dest[1]] if not dest[2] else None
        d = dest
        s = e.load(st, d[1], d[2])
        e.store(st, d[1], d[2], ("arr", tuple(xs)))

    def show(self, t):
        if isinstance(t, str):
            return t
        if t[0] == "p":
            return self.show(t[1]) + "*"
        if t[0] == "i":
            return "i%d" % t[1]
        if t[0] == "a":
            return "[%d x %s]" % (t[2], self.show(t[1]))
        if t[0] == "s":
            return "{%s}" % ", ".join(map(self.show, t[1]))
        if t[0] == "f":
            return "%s(%s)" % (self.show(t[1]), ", ".join(map(self.show, t[2])))
        return "%%%d" % t[1]

    def build(self, e, st, n, b, args):
        v = lambda i: self.get(e, st, args[i], "val")
        t = lambda i: self.get(e, st, args[i], "ty")
        isf = lambda x: x in ("f32", "f64")
        isi = lambda x: x[0] == "i" and not isinstance(x, str)
        if n in BIN:
            x, y = v(1), v(2)
            self.want(x.ty == y.ty, "%s of %s and %s" % (n, self.show(x.ty), self.show(y.ty)))
            self.want(isf(x.ty) if n[0] == "F" else isi(x.ty), "%s of %s" % (n, self.show(x.ty)))
            return self.put(b, "bin", x.ty, BIN[n], x, y, n.startswith("NSW"))
        if n in UN:
            x = v(1)
            return self.put(b, "un", x.ty, n, x)
        if n in ("ICmp", "FCmp"):
            p = e.snap(st, args[1])[3]
            x, y = v(2), v(3)
            self.want(x.ty == y.ty, "a comparison of %s and %s" % (self.show(x.ty), self.show(y.ty)))
            self.want(isf(x.ty) == (n == "FCmp"), "%s of %s" % (n, self.show(x.ty)))
            return self.put(b, "cmp", ("i", 1), p, x, y)
        if n in CONV:
            x, to = v(1), t(2)
            if x.ty == to and n == "BitCast":
                return x
            ok_ = {"Trunc": isi(x.ty) and isi(to) and x.ty[1] > to[1], "ZExt": isi(x.ty) and isi(to) and x.ty[1] < to[1],
                   "SExt": isi(x.ty) and isi(to) and x.ty[1] < to[1], "FPToUI": isf(x.ty) and isi(to), "FPToSI": isf(x.ty) and isi(to),
                   "UIToFP": isi(x.ty) and isf(to), "SIToFP": isi(x.ty) and isf(to), "FPTrunc": (x.ty, to) == ("f64", "f32"), "FPExt": (x.ty, to) == ("f32", "f64"),
                   "PtrToInt": x.ty[0] == "p" and isi(to), "IntToPtr": isi(x.ty) and to[0] == "p",
                   "BitCast": (x.ty[0] == "p") == (to[0] == "p") and self.sized(x.ty) and self.sized(to) and x.ty[0] not in "sna" and to[0] not in "sna" and self.bits(x.ty) == self.bits(to)}[n]
            self.want(ok_, "%s from %s to %s" % (n, self.show(x.ty), self.show(to)))
            return self.put(b, "conv", to, n, x)
        if n in ("Alloca", "ArrayAlloca"):
            ty = t(1)
            return self.put(b, "alloca", ("p", ty), ty, v(2) if n == "ArrayAlloca" else None)
        if n == "Load":
            p = v(1)
            self.want(p.ty[0] == "p" and self.sized(p.ty[1]), "a load through %s" % self.show(p.ty))
            return self.put(b, "load", p.ty[1], p)
        if n == "Store":
            x, p = v(1), v(2)
            self.want(p.ty == ("p", x.ty), "a store of %s through %s" % (self.show(x.ty), self.show(p.ty)))
            return self.put(b, "store", "void", x, p)
        if n in ("GEP", "InBoundsGEP"):
            p = v(1)
            ix = self.many(e, st, args[2], args[3], "val")
            if len(ix) != 1:
                raise Emit("an address computation with %d indices" % len(ix))
            self.want(p.ty[0] == "p" and self.sized(p.ty[1]), "an offset of %s" % self.show(p.ty))
            return self.put(b, "gep", p.ty, p, ix[0])
        if n == "StructGEP":
            p, i = v(1), self.num(args[2])
            off, ft = self.field(p.ty[1], i)
            return self.put(b, "sgep", ("p", ft), p, off)
        if n == "ExtractValue":
            x, i = v(1), self.num(args[2])
            off, ft = self.field(x.ty, i)
            return self.put(b, "extract", ft, x, off)
        if n == "InsertValue":
            x, y, i = v(1), v(2), self.num(args[3])
            off, ft = self.field(x.ty, i)
            self.want(ft == y.ty, "%s inserted where %s is" % (self.show(y.ty), self.show(ft)))
            return self.put(b, "insert", x.ty, x, y, off)
        if n == "Phi":
            x = self.put(b, "phi", t(1))
            x.a = ("phi", [])
            return x
        if n == "Call":
            f = v(1)
            xs = self.many(e, st, args[2], args[3], "val")
            ft = f.ty[1] if f.ty[0] == "p" else "void"
            if not isinstance(ft, tuple) or ft[0] != "f":
                raise Emit("a call of a %s" % self.show(f.ty))
            self.want(tuple(x.ty for x in xs) == ft[2], "a call of %s with (%s)" % (self.show(ft), ", ".join(self.show(x.ty) for x in xs)))
            return self.put(b, "call", ft[1], f, xs)
        if n == "Select":
            c, x, y = v(1), v(2), v(3)
            self.want(c.ty == ("i", 1) and x.ty == y.ty, "a select of %s" % self.show(x.ty))
            return self.put(b, "select", x.ty, c, x, y)
        if n == "Ret":
            x = v(1)
            self.want(b.block.fn.ty[1] == x.ty, "%s is returned from a function returning %s" % (self.show(x.ty), self.show(b.block.fn.ty[1])))
            return self.put(b, "ret", "void", x)
        if n == "RetVoid":
            self.want(b.block.fn.ty[1] == "void", "nothing is returned from a function returning %s" % self.show(b.block.fn.ty[1]))
            return self.put(b, "retv", "void")
        if n == "Br":
            return self.put(b, "br", "void", self.get(e, st, args[1], "bb"))
        if n == "CondBr":
            c = v(1)
            self.want(c.ty == ("i", 1), "a branch on %s" % self.show(c.ty))
            return self.put(b, "cbr", "void", c, self.get(e, st, args[2], "bb"), self.get(e, st, args[3], "bb"))
        if n == "Unreachable":
            return self.put(b, "unreachable", "void")
        raise Emit("the foreign function LLVMBuild%s is not modelled" % n)


TERM = ("ret", "retv", "br", "cbr", "unreachable")


def make_hooks(w):
    def hooks(e, st, c):
        d = strip_generics(c.path or c.d)
        n = d.split("::")[-1]
        if n.startswith("LLVM") and "llvm_sys" in d:
            return [(st, w.call_ffi(e, st, n, c.args))]
        if n in ("as_ptr", "as_mut_ptr") and ("slice" in d or "Vec" in d or "CString" in d or "CStr" in d or "str>" in d or "core::str" in d or "std::str" in d):
            return [(st, c.args[0])]
        if n == "is_null" and c.args[0][0] in ("ref", "i"):
            return [(st, B(c.args[0][0] == "i" and c.args[0][1] == 0))]
        if d.endswith("Vec::set_len"):
            return [(st, UNIT)]
        if d.endswith("NativeValue>::from_host") and "NativeSyntaxMetadata" in d:
            p = next(p for p in e.mir.adts if p.endswith("::NativeSyntaxMetadata"))
            fs = e.mir.adts[p]["variants"][0]["fields"]
            return [(st, ("adt", p, 0, e.mir.adts[p]["variants"][0]["n"], tuple(("sym", "metadata." + f["n"], ("prim", "u32")) for f in fs)))]
        return iomodel.hooks(e, st, c)
    return hooks


class Llvm:
    def __init__(self, mir):
        self.mir = mir
        foreign_adts(mir)
        self.functions = set()
        self.modules = 0

    def engine(self):
        w = World()
        e = Engine(self.mir, make_hooks(w))
        st = State()
        w.ctx = w.ref(e, st, "ctx", "context")
        w.mod = w.ref(e, st, "mod", "module")
        w.dl = w.ref(e, st, "dl", "layout")
        return w, e, st

    def one(self, e, rs, what):
        self.functions |= e.analysed
        if e.panics or e.cuts or len(rs) != 1:
            why = sorted({"%s in %s" % (p[2], p[1].split("::")[-1]) for p in e.panics} | {"cut in %s" % (c[1],) for c in e.cuts})
            raise Emit("%s %s" % (what, "fails: " + "; ".join(why)[:300] if why else "has %d outcomes" % len(rs)))
        return rs[0]

    def artifacts(self, e, st, w, defs, b):
        built = {n: b.def_(d) for n, d in defs.items()}
        dm = e.new_cell(st, ("map", None, tuple((b.ctid(n), e.new_cell(st, d)) for n, d in built.items())))
        st, ca = self.one(e, e.call_fn(st, AR + "ContextArtifact::<'ctx>::new", [w.ctx, w.dl]), "context creation")
        ca = e.new_cell(st, ca)
        st, _ = self.one(e, e.call_fn(st, AR + "ContextArtifact::<'ctx>::add_types", [ca, dm]), "type registration")
        st, ma = self.one(e, e.call_fn(st, AR + "ModuleArtifact::<'ctx, 'm>::new", [w.mod]), "module creation")
        return st, ca, e.new_cell(st, ma)

    def function(self, case):
        """(world, Fn)"""
        w, e, st = self.engine()
        b = irb.Builder(e, st)
        st, ca, ma = self.artifacts(e, st, w, dict(case.defs), b)
        f = b.function(case.params, case.ret, case.body, case.env, case.kind)
        fns = []
        if case.kind != "Main":
            fns.append((b.ctid(1), e.new_cell(st, b.def_(("fn", f)))))
        others = irb.callees(case.body, {})
        others.update(getattr(case, "others", {}))
        for n, d in others.items():
            fns.append((b.ctid(n), e.new_cell(st, b.def_(("fn", b.function(*d))))))
        fm = e.new_cell(st, ("map", None, tuple(fns)))
        st, _ = self.one(e, e.call_fn(st, AR + "ModuleArtifact::<'ctx, 'm>::add_functions", [ma, fm, ca]), "code generation")
        if case.kind == "Main":
            st, _ = self.one(e, e.call_fn(st, AR + "ModuleArtifact::<'ctx, 'm>::add_main", [ma, f, ca]), "code generation")
        self.modules += 1
        name = "llrl_main" if case.kind == "Main" else "1"
        if name not in w.fns:
            raise Emit("no function is defined for the definition")
        return w, w.fns[name]

    def adapter(self):
        w, e, st = self.engine()
        b = irb.Builder(e, st)
        st, ca, ma = self.artifacts(e, st, w, {}, b)
        f = b.function([], "u1", ("const", "int", "u1", False, 1), kind="Main")
        st, _ = self.one(e, e.call_fn(st, AR + "ModuleArtifact::<'ctx, 'm>::add_main", [ma, f, ca]), "code generation")
        w.fns.clear()
        st, ma = self.one(e, e.call_fn(st, AR + "ModuleArtifact::<'ctx, 'm>::new", [w.mod]), "module creation")
        ma = e.new_cell(st, ma)
        st, _ = self.one(e, e.call_fn(st, AR + "ModuleArtifact::<'ctx, 'm>::add_c_main_adapter", [ma, ca]), "the C entry point")
        return w


# ---- meaning of the module -----------------------------------------------------------------------------------------
class St:
    def __init__(self):
        self.vals, self.heap, self.pc, self.ncall, self.visits = {}, R.Heap(), {}, {}, {}
        self.allocs, self.allocas, self.bad, self.nsw = [], [], [], set()
        self.block, self.prev, self.i, self.out = None, None, 0, None

    def fork(self):
        s = St.__new__(St)
        s.vals, s.heap, s.pc, s.ncall, s.visits = dict(self.vals), self.heap.fork(), dict(self.pc), dict(self.ncall), dict(self.visits)
        s.allocs, s.allocas, s.bad, s.nsw = list(self.allocs), list(self.allocas), list(self.bad), set(self.nsw)
        s.block, s.prev, s.i, s.out = self.block, self.prev, self.i, self.out
        return s

    def rsp(self):
        return 0


INTRIN = {"ceil", "floor", "trunc", "round", "sqrt", "sin", "cos", "pow", "exp", "log"}


class Interp:
    def __init__(self, w, types, sigs, max_visits=3, max_paths=400):
        self.w, self.types, self.sigs = w, types, sigs
        self.max_visits, self.max_paths, self.count = max_visits, max_paths, 0

    def run(self, f, init):
        init.block, init.i = f.blocks[0], 0
        done, work = [], [init]
        while work:
            s = work.pop()
            try:
                work += self.path(s)
            except X.Bad as b:
                s.bad.append(b.args)
                s.out = s.out or ("bad",)
            if s.out is not None:
                done.append(s)
            if len(done) + len(work) > self.max_paths:
                raise X.Unsupported("too many partitions")
        return done

    def val(self, s, v):
        if v.k in ("inst", "param"):
            if v not in s.vals:
                raise X.Bad("value", "a value is used where it is not defined")
            return s.vals[v]
        n = self.w.lay(v.ty)[0] if self.w.sized(v.ty) else 0
        if v.k == "int":
            return bytes_of(K(n, v.a[0]))
        if v.k == "symint":
            nm = absint.show(v.a[0]).strip("$")
            m = re.fullmatch(r"as:[ui](32|64|size)\((.*)\)", nm)      # the low bytes of a widened number are its own
            return bytes_of(V(n, ("sym", m.group(2) if m and n == 4 else nm)))
        if v.k == "fp":
            return bytes_of(R.fconst(v.ty, v.a[0]))
        if v.k == "null":
            return bytes_of(K(n, 0)) if v.ty[0] in ("p", "i") else [0] * n
        if v.k == "undef":
            return [R.PAD] * n
        if v.k == "agg":
            bs = [R.PAD] * n
            for i, x in enumerate(v.a[0]):
                o, _ = self.w.field(v.ty, i)
                q = self.val(s, x)
                bs[o:o + len(q)] = q
            return bs
        if v.k == "data":
            return list(v.a[0])
        if v.k == "fn":
            nm = v.a[0].name
            return bytes_of(V(8, ("sym", "fun" + nm if nm.isdigit() else nm)))
        if v.k == "global":
            return bytes_of(V(8, ("lab", v.a[0]["i"])))
        if v.k == "cast":
            return self.val(s, v.a[1])
        raise X.Unsupported("value " + v.k)

    def term(self, s, v):
        bs = self.val(s, v)
        if R.PAD in bs:
            raise X.Bad("value", "an undefined value is used")
        return mk(bs)

    def decide(self, s, c):
        return X.Machine.decide(self, s, c)

    def path(self, s):
        while s.out is None:
            if s.i >= len(s.block.insts):
                raise X.Bad("control", "a block has no terminator")
            v = s.block.insts[s.i]
            s.i += 1
            self.count += 1
            r = self.step(s, v)
            if r is not None:
                return r
        return []

    def goto(self, s, bb, at):
        if s.i < len(s.block.insts):
            raise X.Bad("control", "instructions follow a terminator")
        s.prev, s.block, s.i = s.block, bb, 0
        s.visits[bb] = s.visits.get(bb, 0) + 1
        if s.visits[bb] > self.max_visits:
            s.out = ("cut",)
            return
        new = {}
        for v in bb.insts:
            if v.a[0] != "phi":
                break
            inc = [x for x, b in v.a[1] if b is s.prev]
            if not inc:
                raise X.Bad("control", "a phi has no value for its predecessor")
            new[v] = self.val(s, inc[0])
            s.i += 1
        s.vals.update(new)

    def step(self, s, v):
        op = v.a[0]
        a = v.a[1] if len(v.a) > 1 else ()
        val, term = self.val, self.term
        w = self.w.lay(v.ty)[0] if self.w.sized(v.ty) else 0
        if op == "phi":
            raise X.Bad("control", "a phi is not at the start of its block")
        if op == "bin":
            n, x, y, nsw = a
            p, q = term(s, x), term(s, y)
            one = v.ty == ("i", 1)
            if n in ("add", "sub", "mul"):
                r = {"add": T.ADD, "sub": T.SUB, "mul": T.MUL}[n](p, q)
            elif n in ("shl", "ashr", "lshr"):
                r = T.SHIFT(n, p, T.trunc(q, 1))
            elif n in ("and", "or", "xor"):
                r = {"and": T.BAND, "or": T.BOR, "xor": T.BXOR}[n](p, q)
            else:
                r = T.OP(w, n, p, q)
            if nsw:
                s.nsw.add(r)
            if one and n not in ("and", "or", "xor"):
                raise X.Bad("value", "%s of truth values" % n)
            s.vals[v] = bytes_of(r)
        elif op == "un":
            n, x = a
            p = term(s, x)
            if n == "Not":
                r = T.BXOR(p, K(w, 1 if v.ty == ("i", 1) else -1))
            elif n in ("Neg", "NSWNeg"):
                r = T.NEG(p)
            else:
                r = T.OP(w, "fneg", p)
            s.vals[v] = bytes_of(r)
        elif op == "cmp":
            pr, x, y = a
            p, q = term(s, x), term(s, y)
            c = {"LLVMIntEQ": lambda: EQ(p, q), "LLVMIntNE": lambda: NOT(EQ(p, q)), "LLVMIntUGT": lambda: T.ULT(q, p), "LLVMIntUGE": lambda: NOT(T.ULT(p, q)),
                 "LLVMIntULT": lambda: T.ULT(p, q), "LLVMIntULE": lambda: NOT(T.ULT(q, p)), "LLVMIntSGT": lambda: T.SLT(q, p), "LLVMIntSGE": lambda: NOT(T.SLT(p, q)),
                 "LLVMIntSLT": lambda: T.SLT(p, q), "LLVMIntSLE": lambda: NOT(T.SLT(q, p)), "LLVMRealOEQ": lambda: T.FC("feq", p, q),
                 "LLVMRealOGT": lambda: T.FC("flt", q, p), "LLVMRealOGE": lambda: T.FC("fle", q, p), "LLVMRealOLT": lambda: T.FC("flt", p, q),
                 "LLVMRealOLE": lambda: T.FC("fle", p, q), "LLVMRealUNE": lambda: NOT(T.FC("feq", p, q)), "LLVMRealUGT": lambda: NOT(T.FC("fle", p, q)),
                 "LLVMRealUGE": lambda: NOT(T.FC("flt", p, q)), "LLVMRealULT": lambda: NOT(T.FC("fle", q, p)), "LLVMRealULE": lambda: NOT(T.FC("flt", q, p))}.get(pr)
            s.vals[v] = bytes_of(T.BOOL(c() if c else ("p", "%s(%s,%s)" % (pr, T.show(p), T.show(q)))))
        elif op == "conv":
            n, x = a
            if n in ("BitCast", "PtrToInt", "IntToPtr"):
                s.vals[v] = val(s, x)
                return
            p = term(s, x)
            if x.ty == ("i", 1) and n == "SExt":
                r = T.SUB(K(w, 0), T.zx(p, w))
            else:
                r = {"Trunc": lambda: T.BAND(T.trunc(p, w), K(w, 1)) if v.ty == ("i", 1) else T.trunc(p, w), "ZExt": lambda: T.zx(p, w), "SExt": lambda: T.sx(p, w),
                     "FPToUI": lambda: ("op", w, "fcvt", "z", p), "FPToSI": lambda: ("op", w, "fcvt", "s", p), "UIToFP": lambda: ("op", w, "itof", "z", p),
                     "SIToFP": lambda: ("op", w, "itof", "s", p), "FPTrunc": lambda: T.OP(w, "ftrunc", p), "FPExt": lambda: T.OP(w, "fext", p)}[n]()
            s.vals[v] = bytes_of(r)
        elif op == "alloca":
            ty, num = a
            if num is not None:
                raise X.Unsupported("an array allocated on the stack")
            n, al = self.w.lay(ty)
            p = V(8, "sa#L%d" % len(s.allocas))
            s.allocas.append((p, n, al))
            s.heap.sa[p] = {}
            s.vals[v] = bytes_of(p)
        elif op == "load":
            p = term(s, a[0])
            n = self.w.lay(v.ty)[0]
            bs = s.heap.load(p, n)
            m = [False] * n
            for o, lt in self.w.leaves(v.ty):
                for i in range(self.w.lay(lt)[0]):
                    m[o + i] = True
            s.vals[v] = [(R.PAD if b == ("J", "uninit") else b) if k else R.PAD for b, k in zip(bs, m)]
        elif op == "store":
            bs = val(s, a[0])
            s.heap.store(term(s, a[1]), bs)
        elif op == "gep":
            p, i = a
            n = self.w.lay(p.ty[1])[0]
            t = term(s, i)
            if t[1] < 8 and n:
                t = T.sx(t, 8)
            s.vals[v] = bytes_of(T.lin_of(8, [(term(s, p), 1), (t, n)], 0)) if n else val(s, p)
        elif op == "sgep":
            s.vals[v] = bytes_of(T.ADD(term(s, a[0]), K(8, a[1])))
        elif op == "extract":
            s.vals[v] = val(s, a[0])[a[1]:a[1] + w]
        elif op == "insert":
            bs = list(val(s, a[0]))
            q = val(s, a[1])
            bs[a[2]:a[2] + len(q)] = q
            s.vals[v] = bs
        elif op == "call":
            self.call(s, v, a[0], a[1])
        elif op in ("select", "cbr"):
            c = NOT(EQ(term(s, a[0]), K(1, 0)))
            d = self.decide(s, c)
            if d is None:
                out = []
                for x in (True, False):
                    q = s.fork()
                    q.pc[c] = x
                    q.i -= 1
                    out.append(q)
                return out
            if op == "select":
                s.vals[v] = val(s, a[1] if d else a[2])
            else:
                self.goto(s, a[1] if d else a[2], v)
        elif op == "br":
            self.goto(s, a[0], v)
        elif op in ("ret", "retv"):
            if s.i < len(s.block.insts):
                raise X.Bad("control", "instructions follow a terminator")
            s.out = ("ret", val(s, a[0]) if op == "ret" else None)
        elif op == "unreachable":
            s.out = ("unreachable",) if s.out is None else s.out
        else:
            raise X.Unsupported(op)

    def call(self, s, v, f, args):
        vals = [self.val(s, x) for x in args]
        tys = [x.ty for x in args]
        w = self.w.lay(v.ty)[0] if self.w.sized(v.ty) else 0
        name = f.a[0].name if f.k == "fn" else mk(self.val(s, f))
        if not isinstance(name, str) and name[0] == "v" and isinstance(name[2], tuple) and name[2][0] == "sym":
            name = name[2][1]
        if name == "GC_malloc":
            s.allocs.append(mk(vals[0]))
            s.vals[v] = bytes_of(V(8, "alloc#%d" % len(s.allocs)))
            return
        if isinstance(name, str) and name.startswith("llvm."):
            parts = name.split(".")
            if parts[1] in INTRIN:
                if parts[2] != {"f32": "f32", "f64": "f64"}[v.ty]:
                    raise X.Bad("value", "%s at type %s" % (name, v.ty))
                s.vals[v] = bytes_of(T.OP(w, parts[1], *[mk(x) for x in vals]))
                return
            if parts[1] == "ctpop":
                if parts[2] != "i%d" % v.ty[1]:
                    raise X.Bad("value", "%s at width %d" % (name, v.ty[1]))
                s.vals[v] = bytes_of(T.POPCNT(mk(vals[0]), w))
                return
            if parts[1] in ("memcpy", "memmove"):
                n = s.ncall.get(parts[1], 0)
                s.ncall[parts[1]] = n + 1
                s.heap.event("call", parts[1], [("u64", list(x)) for x in vals[:3]], None, self.snap(s, vals))
                return
            raise X.Unsupported("intrinsic " + name)
        sig = self.sigs.get(name)
        if sig is None:
            raise X.Bad("call", "call to %s, which is no callee of this expression" % (name if isinstance(name, str) else T.show(name)))
        kind, ats, ret = sig
        retp, extra = None, None
        rest = list(zip(tys, vals))
        rn = self.types.size(ret)
        if kind == "c":
            if rn > 16:
                if not rest:
                    raise X.Bad("call", "no place is passed for the result of %s" % (name,))
                retp = mk(rest.pop(0)[1])
        else:
            if not rest:
                raise X.Bad("call", "no environment is passed to %s" % (T.show(name),))
            extra = ("env", list(rest.pop(0)[1]))
        if len(rest) != len(ats):
            raise X.Bad("call", "%d arguments are passed to %s instead of %d" % (len(rest), name if isinstance(name, str) else T.show(name), len(ats)))
        n = s.ncall.get(name, 0)
        s.ncall[name] = n + 1
        s.heap.event("call", name, [(t, list(x)) for t, (_, x) in zip(ats, rest)], extra, self.snap(s, [x for _, x in rest]))
        if name == "llrt_panic":
            s.out = ("noreturn",)
            return
        res = R.fresh(self.types, ret, "%s#%d" % (name if isinstance(name, str) else T.show(name), n))
        if name == "llrt_string_eq" and v.ty == ("i", 32):
            # the runtime answers an int; any non-zero value means true
            c = NOT(EQ(mk(res), K(1, 0)))
            s.vals[v] = bytes_of(T.zx(T.BOOL(c), 4))
            return
        if retp is not None:
            if not any(retp == p and k >= rn for p, k, _ in s.allocas):
                raise X.Bad("call", "the result of %s is written to %s" % (name, T.show(retp)))
            s.heap.store(retp, res)
            if v.ty != "void":
                raise X.Bad("call", "a result is taken in registers and in memory from %s" % (name,))
            return
        if v.ty == "void":
            if rn:
                raise X.Bad("call", "the result of %s is dropped by its type" % (name,))
            return
        if w != rn:
            raise X.Bad("call", "the result of %s has %d bytes instead of %d" % (name if isinstance(name, str) else T.show(name), w, rn))
        s.vals[v] = res

    def snap(self, s, vals):
        return {k: dict(v) for k, v in s.heap.sa.items()}


# ---- agreement -----------------------------------------------------------------------------------------------------
class Spec(R.Spec):
    """signed arithmetic is defined only without overflow; the code generator may say so"""

    word = 1

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.signed = set()

    def e_binary(self, x):
        r = super().e_binary(x)
        if x[1][0] in ("SAdd", "SSub", "SMul"):
            self.signed.add(mk(r))
        return r


class Cmp(chibi.Cmp):
    world = None

    def outside(self, base, off, b):
        """the padding of an allocated object may be written"""
        if b != R.PAD or len(base) != 1 or base[0][0][0] != "v" or not str(base[0][0][2]).startswith("alloc#"):
            return True
        n = self.s.allocs[int(base[0][0][2][6:]) - 1]
        return n[0] != "k" or not 0 <= off < n[2]

    def salloc(self, p, t, stack):
        size, align = self.spec.sasize[p]
        at = [(q, n, al) for q, n, al in self.s.allocas if q == t]
        if not at or at[0][1] < size or (size and at[0][2] < align):
            return True
        if p in self.bind:
            return None if self.bind[p] == t else True
        if t in self.bind.values() and size:
            return True
        self.bind[p] = t
        st = (stack or self.s.heap.sa).get(t, {})
        for i, b in self.spec.heap.sa.get(p, {}).items():
            if b != R.PAD and st.get(i) != b and self.scalar([b], [st.get(i, ("J", "gone"))]):
                return True
        return None

    def scalar(self, a, b, stack=None):
        if all(x == R.PAD for x in a):
            return None
        ta = mk(a) if not any(x == R.PAD for x in a) else None
        if ta and ta[0] == "v" and isinstance(ta[2], tuple) and ta[2][0] == "any":
            return None if list(b) == bytes_of(V(4, ("sym", "metadata.ip"))) + bytes_of(V(4, ("sym", "metadata.ir"))) else True
        return super().scalar(a, b, stack)

    def rodata(self, want, t):
        if t[0] != "v" or not isinstance(t[2], tuple) or t[2][0] != "lab":
            return False
        g = self.world.globals[t[2][1]].a[0]
        i = g["init"]
        return i is not None and i.k == "data" and i.a[0][:len(want)] == want and g["linkage"] in ("LLVMInternalLinkage", "LLVMPrivateLinkage")


def entry_state(w, f, types, case, slots):
    s = St()
    vals = {}
    ps = list(f.params)

    def take(n, what):
        if not ps:
            raise X.Bad("value", "no parameter for %s" % what)
        p = ps.pop(0)
        if w.lay(p.ty)[0] != n:
            raise X.Bad("value", "the parameter for %s has %d bytes instead of %d" % (what, w.lay(p.ty)[0], n))
        return p
    if case.kind == "Macro":
        s.vals[take(8, "the result")] = bytes_of(V(8, "retp"))
    if case.kind == "Standard":
        s.vals[take(8, "the environment")] = bytes_of(V(8, "envp"))
    for i, t in case.params:
        vals[i] = R.fresh(types, t, "p%d" % i)
        s.vals[take(types.size(t), "p%d" % i)] = list(vals[i])
    if ps:
        raise X.Bad("value", "%d extra parameters" % len(ps))
    if case.env is not None:
        vals[case.env[0]] = bytes_of(V(8, "envp"))
        for (i, t), o in zip(case.env[1], slots):
            n = types.size(t)
            vals[i] = [b if m else R.PAD for b, m in zip(R.Heap().load(T.ADD(V(8, "envp"), K(8, o)) if n else V(8, "envp"), n), types.mask(t))]
    return s, vals


def check(cg, case, slots=None):
    types = R.Types(dict(case.defs))
    sigs = dict(BUILTINS)
    sigs.update(case.sigs)
    out = []
    try:
        w, f = cg.function(case)
    except Emit as x:
        return [("emit", str(x))], None
    for b in w.bad:
        out.append(("type", b))
    if w.bad:
        return out[:3], None
    it = Interp(w, types, sigs)
    try:
        s0, vals = entry_state(w, f, types, case, slots)
        done = it.run(f, s0)
    except X.Unsupported as x:
        return [("emit", "not analysed: %s" % x)], None
    except X.Bad as x:
        return [x.args], None
    for s in done:
        best = None
        for order in ("lr", "rl", "lr-first"):
            diffs = against(types, case, s, vals, order, w)
            if not diffs:
                best = []
                break
            best = best or diffs
        out += [d for d in best if d not in out]
    if not done:
        out.append(("value", "no path reaches the end"))
    return out, {"paths": len(done), "insts": it.count}


def against(types, case, s, vals, order, w):
    out = []
    work = [dict(s.pc)]
    n = 0
    while work:
        pc = work.pop()
        sp = Spec(types, pc, order)
        sp.envslots = getattr(case, "envslots", {})
        sp.env = {k: list(v) for k, v in vals.items()}
        res = sp.run(case.body)
        if res[0] == "undecided" and s.out[0] != "cut":
            n += 1
            if n > 64:
                return [("value", "too many partitions")]
            for v in (True, False):
                q = dict(pc)
                q[res[1]] = v
                work.append(q)
            continue
        c = Cmp(types, s, sp)
        c.world = w
        saved, s.pc = s.pc, pc
        try:
            out += judge(types, case, s, sp, res, c)
        finally:
            s.pc = saved
    return out


def judge(types, case, s, sp, res, c):
    where = "" if not s.pc else " when " + " and ".join(sorted((T.show(k) if v else "not " + T.show(k)) for k, v in s.pc.items()))
    out = []
    if res[0] == "unreachable":
        d = c.log(True)
        return [("value", d + where)] if d else []
    for b in s.bad:
        out.append((b[0], b[1] + where))
    if s.out[0] == "bad":
        return out
    if s.out[0] == "cut":
        d = c.log(True) if res[0] in ("undecided", "cut") else "the loop does not end" + where
        return out + ([("value", d + where)] if d else [])
    if s.out[0] in ("noreturn", "unreachable"):
        return out + [("value", "panics or is undefined" + where)]
    if res[0] != "ret":
        return out + [("value", "returns instead of continuing" + where)]
    for t in s.nsw - sp.signed:
        out.append(("value", "%s is undefined on signed overflow%s" % (T.show(t), where)))
    bs = res[1]
    n = types.size(case.ret)
    if case.kind == "Macro":
        if s.out[1] is not None:
            out.append(("value", "a macro returns its result twice"))
        sp.heap.store(V(8, "retp"), bs)
        d = c.log(False)
    else:
        got = s.out[1]
        if got is None or len(got) != n:
            return out + [("value", "the result has %s bytes instead of %d%s" % (None if got is None else len(got), n, where))]
        d = c.value(case.ret, bs, got, "the result") if n else None
        d = d or c.log(False, (bs, got))
    if d:
        out.append(("value", d + where))
    d = c.allocs()
    if d:
        out.append(("value", d + where))
    return out


def env_slots(cg, case):
    """where a function finds the elements of its environment"""
    types = R.Types(dict(case.defs))
    sigs = dict(BUILTINS)
    sigs.update(case.sigs)
    w, f = cg.function(case)
    if w.bad:
        raise Emit(w.bad[0])
    it = Interp(w, types, sigs)
    s0, _ = entry_state(w, f, types, case, [0] * len(case.env[1]))
    out = {}
    for s in it.run(f, s0):
        got = [e for e in s.heap.log if e[0] == "call" and not isinstance(e[1], str)]
        for (i, t), e in zip(case.env[1], got):
            n = types.size(t)
            cand = [0] if n == 0 or True not in types.mask(t) else []
            for o in range(0, 2048):
                if n and not cand and all(not k or x == y for x, y, k in zip(R.Heap().load(T.ADD(V(8, "envp"), K(8, o)), n), e[2][0][1], types.mask(t))):
                    cand.append(o)
                    break
            out.setdefault(i, cand)
    if any(len(out.get(i, [])) != 1 for i, _ in case.env[1]):
        raise Emit("the place of %s in the environment is not known" % [i for i, _ in case.env[1] if len(out.get(i, [])) != 1])
    return [out[i][0] for i, _ in case.env[1]]


def check_adapter(cg):
    w = cg.adapter()
    out = [("type", b) for b in w.bad]
    f = w.fns.get("main")
    if f is None or not f.blocks:
        return [("entry", "no function main")], 0
    types = R.Types({})
    it = Interp(w, types, {"llrt_init": ("c", ["s32", "u64"], "unit"), "llrl_main": ("c", [], "u1")})
    s = St()
    if f.ty != ("f", ("i", 32), (("i", 32), ("p", ("p", ("i", 8))))):
        out.append(("entry", "main has the type %s" % w.show(f.ty)))
        return out, 0
    argc, argv = V(4, "argc"), V(8, "argv")
    s.vals[f.params[0]], s.vals[f.params[1]] = bytes_of(argc), bytes_of(argv)
    for s in it.run(f, s):
        out += [(b[0], b[1]) for b in s.bad]
        if s.out[0] != "ret":
            out.append(("entry", "does not return"))
            continue
        calls = [e for e in s.heap.log if e[0] == "call"]
        if [e[1] for e in calls] != ["llrt_init", "llrl_main"]:
            out.append(("entry", "calls %s instead of llrt_init and then the program" % [e[1] for e in calls]))
        elif mk(calls[0][2][0][1]) != argc or mk(calls[0][2][1][1]) != argv:
            out.append(("entry", "llrt_init is not given the arguments of main"))
        if mk(s.out[1]) != K(4, 0):
            out.append(("entry", "returns %s instead of 0" % T.showbs(s.out[1])))
    return out, it.count


def driver(mir=None):
    return Llvm(mir or Mir(["llrl", "llvm"], canon=True))
