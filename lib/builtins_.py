"""The operations, types and constructors the language builds in: what their names mean, and how the library declares them."""
import os
import re
import facts
from xlate import *
from xlate import Tr
import reserved as reserved_


# ---------------------------------------------------------------- the declarations
def read(text):
    """S-expressions: lists for () [], ("annotation", ..) for {}, strings as ("str", ..), atoms as str"""
    tok = re.compile(r'\s+|;[^\n]*|("(?:\\.|[^"\\])*")|(#\\(?:\\.|[A-Za-z0-9]+|.)|#[tf]\b)|([()\[\]{}])|([`,\\\'~$^@!]*[^\s()\[\]{}";]+|[`,\\\'~$^@!]+)', re.S)
    out, stack, i = [], [], 0
    cur = out
    while i < len(text):
        m = tok.match(text, i)
        if not m:
            raise Bad("source that cannot be read: %r" % text[i:i + 30])
        i = m.end()
        if m.group(1):
            cur.append(("str", m.group(1)[1:-1]))
        elif m.group(2):
            cur.append(m.group(2))
        elif m.group(3):
            c = m.group(3)
            if c in "([{":
                stack.append(cur)
                new = ["{}"] if c == "{" else []
                cur.append(new)
                cur = new
            else:
                if not stack:
                    raise Bad("source with unbalanced brackets")
                cur = stack.pop()
        elif m.group(4):
            cur.append(m.group(4))
    if stack:
        raise Bad("source with unbalanced brackets")
    return out


def lists(x):
    if isinstance(x, list):
        yield x
        for y in x:
            yield from lists(y)


LIB = ("std", "llrl1", "llvm1", "xten1")


def sources():
    yield "llrl0/src/ast/builtin.llrl"
    for d in LIB:
        for b, ds, fs in os.walk(os.path.join(facts.REPO, d)):
            ds.sort()
            for f in sorted(fs):
                if f.endswith(".llrl"):
                    yield os.path.relpath(os.path.join(b, f), facts.REPO)


class Decls:
    """(kind, name, where, signature) of everything built in that is declared"""

    def __init__(self):
        self.ops, self.types = [], []
        self.top = {}
        self.functions = {}
        self.files = 0
        for f in sources():
            text = open(os.path.join(facts.REPO, f)).read()
            if f == "llrl0/src/ast/builtin.llrl":
                self.top = read(text)
            if "(builtin-" not in text:
                continue
            self.files += 1
            for d in read(text):
                if not isinstance(d, list) or len(d) < 3:
                    continue
                if d[0] == "builtin-op" and isinstance(d[3:4] and d[3], tuple) and isinstance(d[2], list):
                    self.ops.append((d[1], f, signature_of(d[2]), d[3][1]))
                if d[0] == "builtin-type" and isinstance(d[2], tuple):
                    head = d[1] if isinstance(d[1], list) else [d[1]]
                    vs = []
                    for v in d[3:]:
                        con = v[0] if isinstance(v[0], list) else [v[0]]
                        vs.append((con[0], None if not isinstance(v[0], list) else [type_of(x) for x in con[1:]], v[1][1]))
                    self.types.append((head[0], f, head[1:], d[2][1], vs))


def type_of(x):
    if isinstance(x, str):
        return ("t", x, ())
    if isinstance(x, list) and x and x[0] == "->":
        return ("t", "->", tuple(type_of(y) for y in x[1:]))
    if isinstance(x, list) and x and isinstance(x[0], str):
        return ("t", x[0], tuple(type_of(y) for y in x[1:]))
    raise Bad("a type that cannot be read: %s" % (x,))


def signature_of(x):
    """(type parameters, type, [(class, arguments)])"""
    if x[0] != "{}":
        raise Bad("a signature that cannot be read")
    vs, body, where = [], None, []
    for y in x[1:]:
        if isinstance(y, list) and y and y[0] == "forall":
            vs = y[1:]
        elif isinstance(y, list) and y and y[0] == "where":
            where = [(c[0], [type_of(t) for t in c[1:]]) for c in y[1:]]
        else:
            body = type_of(y)
    return vs, body, where


# ---------------------------------------------------------------- what the names mean
def T(n, *a):
    return ("t", n, tuple(a))


BOOL, U64, I64, U8, STR, I32, UNIT_ = (T(x) for x in ("Bool", "U64", "I64", "U8", "String", "I32", "unit"))
a, b = ("var", "a"), ("var", "b")
ptr, arr_, syn = (lambda x: T("ptr", x)), (lambda x: T("array", x)), (lambda x: T("syntax", x))


def un(op, *tys):
    return lambda m, x: ("unary", (op,) + tuple(m(t) for t in tys), x[0])


def bi(op):
    return lambda m, x: ("binary", (op,), x[0], x[1])


def te(op):
    return lambda m, x: ("ternary", (op,), x[0], x[1], x[2])


# name: (parameters, result, what the type variable stands for, term)
OPS = {
    "no-op": ((a,), b, "same representation", lambda m, x: x[0]),
    "size-of": ((T("Phantom", a),), U64, "", lambda m, x: ("nullary", ("SizeOf", m(a)))),
    "align-of": ((T("Phantom", a),), U64, "", lambda m, x: ("nullary", ("AlignOf", m(a)))),
    "and": ((BOOL, BOOL), BOOL, "", lambda m, x: ("and", x[0], x[1])),
    "or": ((BOOL, BOOL), BOOL, "", lambda m, x: ("or", x[0], x[1])),
    "not": ((BOOL,), BOOL, "", un("Not")),
    "bitcast": ((a,), b, "", un("BitCast", b)),
    "reinterpret": ((a,), b, "", un("Reinterpret", b)),
    "integer.eq": ((a, a), BOOL, "integer", bi("IEq")),
    "integer.complement": ((a,), a, "integer", un("IComplement")),
    "integer.popcount": ((a,), a, "integer", un("IPopCount")),
    "integer.trunc": ((a,), b, "", un("ITrunc", b)),
    "string.genid": ((), STR, "", lambda m, x: ("nullary", ("GenId",))),
    "string.construct": ((ptr(U8), U64), STR, "", bi("StringConstruct")),
    "string.eq": ((STR, STR), BOOL, "", bi("StringEq")),
    "string.cmp": ((STR, STR), I32, "", bi("StringCmp")),
    "string.concat": ((STR, STR), STR, "", bi("StringConcat")),
    "string.ptr": ((STR,), ptr(U8), "", un("StringPtr")),
    "string.length": ((STR,), U64, "", un("StringLength")),
    "ptr.temporary": ((a,), ptr(a), "", lambda m, x: ("alloc", "StackStatic", x[0])),
    "ptr.load": ((ptr(a),), a, "", un("Load")),
    "ptr.store": ((a, ptr(a)), UNIT_, "", bi("Store")),
    "ptr.offset": ((I64, ptr(a)), ptr(a), "", bi("Offset")),
    "ptr.cast": ((ptr(a),), ptr(b), "", lambda m, x: ("unary", ("BitCast", ("ptr", m(b))), x[0])),
    "ptr.copy": ((ptr(a), U64, ptr(a)), UNIT_, "", te("PtrCopy")),
    "ptr.move": ((ptr(a), U64, ptr(a)), UNIT_, "", te("PtrMove")),
    "ptr.to-integer": ((ptr(a),), U64, "", un("PtrToI")),
    "integer.to-ptr": ((U64,), ptr(a), "", lambda m, x: ("unary", ("IToPtr", m(a)), x[0])),
    "array.construct": ((ptr(a), U64), arr_(a), "", bi("ArrayConstruct")),
    "array.ptr": ((arr_(a),), ptr(a), "", un("ArrayPtr")),
    "array.length": ((arr_(a),), U64, "", un("ArrayLength")),
    "array.load": ((U64, arr_(a)), a, "", bi("ArrayLoad")),
    "array.store": ((U64, a, arr_(a)), UNIT_, "", te("ArrayStore")),
    "array.alloc": ((U64,), arr_(a), "", lambda m, x: ("allocarray", "Heap", m(a), x[0])),
    "array.stackalloc": ((U64,), arr_(a), "", lambda m, x: ("allocarray", "StackDynamic", m(a), x[0])),
    "panic": ((STR,), a, "", un("Panic")),
    "call.main": ((ptr(U8),), BOOL, "", lambda m, x: ("call", "main", x[0], None, [])),
    "call.macro": ((ptr(U8), a), b, "", lambda m, x: ("call", "macro", x[0], m(b), [x[1]])),
}
for n, op in (("shl", "IShl"), ("ashr", "IAShr"), ("lshr", "ILShr"), ("and", "IAnd"), ("or", "IOr"), ("xor", "IXor")):
    OPS["integer." + n] = ((a, a), a, "integer", bi(op))
for k, l, kind in (("signed", "S", "signed"), ("unsigned", "U", "unsigned"), ("float", "F", "float"), ("ptr", "Ptr", "")):
    t = ptr(a) if k == "ptr" else a
    for n in ("lt", "le", "gt", "ge"):
        OPS["%s.%s" % (k, n)] = ((t, t), BOOL, kind, bi(l + n.capitalize()))
    if k != "ptr":
        for n in ("add", "sub", "mul", "div", "rem"):
            OPS["%s.%s" % (k, n)] = ((a, a), a, kind, bi(l + n.capitalize()))
        OPS[k + ".ext"] = ((a,), b, "", un(l + "Ext", b))
    if k in ("float", "ptr"):
        OPS[k + ".eq"] = ((t, t), BOOL, kind, bi(l + "Eq"))
for n, op in (("signed.to-float", "SToF"), ("unsigned.to-float", "UToF"), ("float.to-signed", "FToS"), ("float.to-unsigned", "FToU"), ("float.trunc", "FTrunc")):
    OPS[n] = ((a,), b, "", un(op, b))
for n in ("ceil", "floor", "trunc", "round"):
    OPS["real." + n] = ((a,), a, "float", un("Real" + n.capitalize()))
for n in ("sqrt", "sin", "cos", "exp", "log"):
    OPS["math." + n] = ((a,), a, "float", un("Math" + n.capitalize()))
OPS["math.pow"] = ((a, a), a, "float", bi("MathPow"))

# constructors: name -> (fields, type they make, term, pattern)
VALUES = {
    "ptr": ((a,), "ptr", lambda m, x: ("alloc", "Heap", x[0]), lambda m, x: ("pderef", x[0])),
    "non-null": ((a,), "ptr", lambda m, x: ("alloc", "Heap", x[0]), lambda m, x: ("pnonnull", x[0])),
    "null": (None, "ptr", lambda m, x: ("nullary", ("Null", m(a))), lambda m, x: ("pnull", m(a))),
    "syntax": ((a,), "syntax", None, lambda m, x: ("psyntax", x[0])),
}
TYPES = {"i8": "s8", "i16": "s16", "i32": "s32", "i64": "s64", "u8": "u8", "u16": "u16", "u32": "u32", "u64": "u64", "f32": "f32", "f64": "f64",
         "string": "string", "char": "char", "captured-use": "use"}
# what programs call them
NAMED = {"I8": "i8", "I16": "i16", "I32": "i32", "I64": "i64", "U8": "u8", "U16": "u16", "U32": "u32", "U64": "u64", "F32": "f32", "F64": "f64",
         "String": "string", "Char": "char", "CapturedUse": "captured-use", "Syntax": "syntax", "Ptr": "ptr", "Ref": "ptr", "Box": "ptr", "Array": "array"}
CLASS = {"integer": {"Integer", "Signed", "Unsigned"}, "signed": {"Signed"}, "unsigned": {"Unsigned"}, "float": {"Float"}}
SIGNED, UNSIGNED, FLOATS = {"I8", "I16", "I32", "I64"}, {"U8", "U16", "U32", "U64"}, {"F32", "F64"}
# enumerations and characters are compared as unsigned integers
CONCRETE = {"integer": SIGNED | UNSIGNED | {"Char", "Bool", "Ordering"}, "signed": SIGNED, "unsigned": UNSIGNED | {"Char", "Bool", "Ordering"}, "float": FLOATS}


def order(ts):
    """the variables in the order they come"""
    out = []

    def f(t):
        if t[0] == "var":
            if t[1] not in out:
                out.append(t[1])
        else:
            for x in t[2]:
                f(x)
    for t in ts:
        f(t)
    return out


def op_case(mir, name, builtin, tparams, where, ps, ret, want, kind="op", mid=1, index=50):
    """the translation of a declared operation (or constructor): ps, ret are given as functions of the case to types"""
    def make(c):
        own = (tuple(tparams), tuple(where))
        ts = [p[0](c) for p in ps]
        if ps or kind == "call":
            n = len(ts)
            body = c.a.enum(AT + "Type", "App", c.a.box(c.a.enum(AT + "Type", "Con", c.a.enum(AT + "TypeCon", "Builtin", c.a.nid(n, 0)))), ("arr", tuple(ts) + (ret[0](c),)))
        else:
            body = ret[0](c)
        s = scheme(c, own, body)
        if kind == "op":
            c.know("ast", ("BuiltinOp", mid, index), ("byref", c.a.struct(DE + "BuiltinOp", id=c.a.nid(index, mid), ann=c.ann(s), builtin_name=("s", builtin))))
        else:
            c.know("scheme_of", ("BuiltinValueCon", mid, index), s)
            c.know("ast", ("BuiltinValueCon", mid, index), ("byref", valuecon(c, "Builtin", index, len(ps) if ps else None, mid, builtin)))
        c.know("symbol_of", ("BuiltinOp" if kind == "op" else "BuiltinValueCon", mid, index), c.symbol("the declaration"))
        ids = [FRESH + 1 + j for j in range(len(ps))]
        pts = [p[1](c) for p in ps]
        r = ret[1](c)
        vs = [("var", i, t) for i, t in zip(ids, pts)]
        return ("generic", cparams(c, own), fn_def(c, list(zip(ids, pts)), r, want(c, vs), True))
    return def_case(mir, name, "BuiltinOp" if kind == "op" else "BuiltinValueCon", index, make, mid)


def typed(t, tparams, settled=False):
    """(the type in the source, its translation) as functions of the case"""
    if t[0] == "t" and not t[2] and t[1] in tparams:
        i = tparams.index(t[1])
        return (lambda c: c.a.enum(AT + "Type", "Gen", c.a.nid(200 + i))), (lambda c: ("id", c.number("TypeParameter", 1, 200 + i)))
    n = text(t)
    if settled:
        # a constructor that is known not to be that of functions
        f = lambda c: c.a.enum(AT + "Type", "Con", c.a.enum(AT + "TypeCon", "Data", c.a.nid(77)))
        g = lambda c: ("id", c.number("DataTypeCon", 1, 77))
        if not t[2]:
            return f, g
        xs = [typed(x, tparams) for x in t[2]]
        return (lambda c: c.a.enum(AT + "Type", "App", c.a.box(f(c)), ("arr", tuple(x[0](c) for x in xs)))), (lambda c: ("inst", g(c), tuple(x[1](c) for x in xs)))
    if n == "unit":
        # a value of no content
        return (lambda c: c.ty(n)), (lambda c: c.cty(n))
    if t[0] == "t" and t[2]:
        # an application that the translation of types takes apart
        f = lambda c: c.ty(text(("t", t[1], ())))
        xs = [typed(x, tparams) for x in t[2]]
        return (lambda c: c.a.enum(AT + "Type", "App", c.a.box(f(c)), ("arr", tuple(x[0](c) for x in xs)))), \
            (lambda c: ("inst", c.cty(text(("t", t[1], ()))), tuple(x[1](c) for x in xs)))
    return (lambda c: c.ty(n)), (lambda c: c.cty(n))


def text(t):
    if t[0] == "var":
        return t[1]
    return t[1] if not t[2] else "(%s %s)" % (t[1], " ".join(text(x) for x in t[2]))


def flat(t):
    """parameters and result of a declared type"""
    if t[1] == "->":
        return list(t[2][:-1]), t[2][-1]
    return [], t


def fit(s, t, env, kinds, tparams):
    """does the declared type t have the form s? kinds: what builtin type a name stands for"""
    if s[0] == "var":
        if s[1] in env:
            return env[s[1]] == t
        env[s[1]] = t
        return True
    name = kinds.get(t[1], t[1])
    want = s[1]
    if want in ("ptr", "array", "syntax"):
        if name != want:
            return False
    elif kinds.get(want, want) != name:
        return False
    return len(s[2]) == len(t[2]) and all(fit(x, y, env, kinds, tparams) for x, y in zip(s[2], t[2]))


def representation(t, kinds):
    n = kinds.get(t[1], t[1])
    if n in ("char",):
        n = "u32"
    if n[:1] in "iu" and n[1:].isdigit():
        n = "bits" + n[1:]
    return (n,) + tuple(representation(x, {}) if n in ("ptr", "array") else x for x in t[2])


def canonical(mir):
    """every operation the language has, on types of its own"""
    for n, (ps, r, _, term) in sorted(OPS.items()):
        vs = order(ps + (r,))
        # the order of the type parameters is that of the parameters, then the result
        sub = lambda t: ("t", t[1], ()) if t[0] == "var" else ("t", t[1], tuple(sub(x) for x in t[2]))
        P = [typed(sub(p), vs) for p in ps]
        R = typed(sub(r), vs, not ps)

        def want(c, xs, term=term, vs=vs):
            return term(lambda v: ("id", c.number("TypeParameter", 1, 200 + vs.index(v[1]))), xs)
        yield op_case(mir, "operation %s" % n, n, vs, (), P, R, want)
    for k in range(4):
        P = [typed(("t", "P%d" % i, ()), ()) for i in range(k + 1)]
        yield op_case(mir, "operation call.c of %d" % k, "call.c", (), (), P, typed(("t", "R", ()), ()), lambda c, xs: ("call", "ci", xs[0], c.cty("R"), list(xs[1:])))
    for n, (ps, ty, term, pat) in sorted(VALUES.items()):
        P = [typed(("t", "a", ()), ("a",)) for _ in ps or ()]
        R = typed(("t", ty, (("t", "a", ()),)), ("a",), not P)

        def want(c, xs, term=term):
            m = lambda v: ("id", c.number("TypeParameter", 1, 200))
            return term(m, xs) if term else ("syntax", c.loc("the declaration"), xs[0])
        yield op_case(mir, "constructor %s" % n, n, ("a",), (), P, R, want, kind="con")

        def f(c, n=n, ps=ps, pat=pat):
            c.know("instantiation_of", ("Pattern", 1, 1), c.inst(("A",), ()))
            c.know("ast", ("BuiltinValueCon", 1, 60), ("byref", valuecon(c, "Builtin", 60, len(ps) if ps else None, 1, n)))
            fs = NONE if ps is None else some(("arr", tuple(c.pat(20 + i) for i in range(len(ps)))))
            v = c.a.struct(PA + "PatternDecon", use_=c.use(c.a.enum(X + "ValueCon", "Builtin", c.a.nid(60))), fields=fs)
            return c.pnode(1, "Decon", *boxed(c, "Decon", v)), pat(lambda v: c.cty("A"), [c.ppart(20 + i) for i in range(len(ps or ()))])
        yield case(mir, "pattern of constructor %s" % n, PA + "Pattern", f)
    for n, w, k in [(n, (lambda ps, w=w: w), 0) for n, w in sorted(TYPES.items())] + [(n, (lambda ps, n=n: (n, ps[0])), 1) for n in ("ptr", "array", "syntax")] + \
            [("fun", (lambda ps: ("clos", tuple(ps[:-1]), ps[-1])), k) for k in range(1, 18)]:
        def f(c, n=n, w=w, k=k):
            con = c.a.struct(DE + "BuiltinTypeCon", id=c.a.nid(50), ty_params=("arr", tuple(c.aparam(200 + i) for i in range(k))), builtin_name=("s", n), value_cons=("arr", ()))
            c.know("ast", ("BuiltinTypeCon", 1, 50), c.a.struct(DE + "BuiltinType", con=c.a.box(con), root=c.root(builtin_type_cons=[con])))
            ids = [c.number("TypeParameter", 1, 200 + i) for i in range(k)]
            return ("generic", ids, ("alias", w([("id", i) for i in ids])))
        yield def_case(mir, "type %s%s" % (n, " of %d" % k if n == "fun" else ""), "BuiltinTypeCon", 50, f)


def declared(mir, ck):
    """every declaration of the library: its type fits, and it is translated to the operation on its operands"""
    D = Decls()
    kinds = {n: bn for n, _, _, bn, _ in D.types}
    out = []
    for name, f, (vs, ty, where), bn in D.ops:
        at = "%s in %s" % (name, f)
        ps, r = flat(ty)
        if bn == "call.c":
            ck.count("declarations of operations")
            ck.oblige(len(ps) >= 1, "no address:%s" % at, "%s calls through an address, but takes none" % at)
            continue
        ck.count("declarations of operations")
        if not ck.oblige(bn in OPS, "unknown:%s" % at, "%s is declared as `%s`, which is no operation of the language" % (at, bn)):
            continue
        sp, sr, kind, term = OPS[bn]
        env = {}
        good = len(sp) == len(ps) and all(fit(s, t, env, kinds, vs) for s, t in zip(sp, ps)) and fit(sr, r, env, kinds, vs)
        if good and kind == "same representation":
            good = representation(env["a"], kinds) == representation(env["b"], kinds)
        elif good and kind:
            t = env["a"]
            if not t[2] and t[1] in vs:
                good = any(cl in CLASS[kind] and args == [t] for cl, args in where)
            else:
                good = not t[2] and t[1] in CONCRETE[kind]
        if not ck.oblige(good, "type:%s" % at, "%s has a type that the operation `%s` does not have: %s" % (at, bn, text(ty))):
            continue

        def want(c, xs, term=term, env=env, vs=vs):
            return term(lambda v: typed(env[v[1]], vs)[1](c), xs)
        wh = ["w%d" % i for i, _ in enumerate(where)]
        out.append(op_case(mir, "declaration %s" % at, bn, vs, wh, [typed(p, vs) for p in ps], typed(r, vs, not ps), want))
    for name, f, vs, bn, cons in D.types:
        at = "%s in %s" % (name, f)
        ck.count("declarations of types")
        if bn == "fun":
            m = re.fullmatch(r"Fun\.(\d+)", name)
            ck.oblige(m is not None and len(vs) == int(m.group(1)) + 1, "function type:%s" % at, "%s is declared as a function type with %d parameters" % (at, len(vs)))
            continue
        k = {"ptr": 1, "array": 1, "syntax": 1}.get(bn, 0)
        ck.oblige((bn in TYPES or k) and len(vs) == k and NAMED.get(name, bn) == bn, "type:%s" % at, "%s is declared as `%s` with %d parameters" % (at, bn, len(vs)))
        for cn, fs, cb in cons:
            ck.count("declarations of constructors")
            s = VALUES.get(cb)
            good = s is not None and s[1] == bn and (s[0] is None) == (fs is None) and (fs is None or fs == [("t", v, ()) for v in vs])
            ck.oblige(good, "constructor:%s of %s" % (cn, at), "%s of %s is declared as `%s` with fields %s" % (cn, at, cb, fs))
        # either the one constructor there is, or null and what is not null
        names = sorted(x[2] for x in cons)
        ck.oblige(names in ([], [bn], ["non-null", "null"]), "constructors:%s" % at, "the constructors of %s do not tell its values apart: %s" % (at, names))
    for n in sorted(NAMED):
        ck.oblige(any(x[0] == n for x in D.types), "missing:%s" % n, "the type %s is not declared" % n)
    reserved(ck, D, mir)
    ck.count("files with declarations", D.files)
    return out


MEANT = [("types::TypeCon::" + k.upper(), (), v) for k, v in
         [(n.lower(), n) for n in ("I8", "I16", "I32", "I64", "U8", "U16", "U32", "U64", "F32", "F64", "Bool", "String", "Char", "Option", "Result", "Syntax", "Sexp")] +
         [("captured_use", "CapturedUse")]] + \
    [("expr::ValueCon::" + k.upper(), (), k) for k in ("none", "some", "err", "ok", "syntax")] + \
    [("expr::ValueCon::bool", (B(1),), "true"), ("expr::ValueCon::bool", (B(0),), "false"), ("expr::ValueCon::unit", (), "0:"), ("types::TypeCon::unit", (), "Tuple.0"),
     ("builtin::TRUE", (), "true"), ("builtin::FALSE", (), "false"), ("builtin::SEXP", (), "Sexp")]


def reserved(ck, D, mir):
    """the constructs the compiler knows by number are declared, each once, as what it takes them for"""
    names, fns = reserved_.table(mir)
    have = {}

    def add(k, n):
        have.setdefault(n, []).append(k)
    for d in D.top:
        if not isinstance(d, list) or not d:
            continue
        head = d[1][0] if len(d) > 1 and isinstance(d[1], list) else d[1] if len(d) > 1 else None
        if d[0] in ("data", "value-data"):
            add("DataTypeCon", head)
            for v in d[2:]:
                add("DataValueCon", v[0] if isinstance(v, list) else v)
        elif d[0] == "builtin-type":
            add("BuiltinTypeCon", head)
            for v in d[3:]:
                add("BuiltinValueCon", v[0][0] if isinstance(v[0], list) else v[0])
        elif d[0] in ("class", "sealed-class"):
            add("ClassCon", head)
            add("Constraint", "#%s" % head)
        elif d[0] == "instance":
            add("InstanceCon", head)
    seen = {}
    for name, (kind, at) in sorted(names.items()):
        ck.count("reserved constructs")
        ck.oblige(have.get(name) == [kind], "reserved:%s" % name, "%s is known as a %s, but declared as %s" % (name, kind, have.get(name)))
        ck.oblige(at not in seen and at[0] == 0, "number:%s" % name, "%s and %s are known by the same number" % (name, seen.get(at)))
        seen[at] = name
    # what the compiler calls them
    for path, args, name in MEANT:
        path = "llrl::ast::" + path
        if path in mir.fns:
            ck.count("uses of reserved constructs by name")
            v, e = reserved_.run(mir, path, args)
            got = seen.get(reserved_.node(v))
            ck.oblige(got == name, "meaning:%s%s" % (path, args or ""), "%s%s is the construct %s, not %s" % (path, [x[1] for x in args] or "", got, name))
    for k, of in (("fun", "Fun.%d"), ("tuple_type", "Tuple.%d"), ("tuple", "%d:")):
        for n in range(17):
            path = "llrl::ast::builtin::" + k
            if path in mir.fns:
                ck.count("uses of reserved constructs by name")
                v, e = reserved_.run(mir, path, [I(n, "usize")])
                got = seen.get(reserved_.node(v))
                ck.oblige(got == of % n, "meaning:%s(%d)" % (path, n), "%s(%d) is the construct %s, not %s" % (path, n, got, of % n))
    for k, of, kind in (("matches_fun", "Fun.%d", "BuiltinTypeCon"), ("matches_tuple_type", "Tuple.%d", "DataTypeCon"), ("matches_tuple", "%d:", "DataValueCon")):
        path = "llrl::ast::builtin::" + k
        if path not in mir.fns:
            continue
        for name, (kd, at) in sorted(names.items()):
            if kd != kind:
                continue
            ck.count("uses of reserved constructs by name")
            nid = Tr(mir).a.nid(at[1], at[0])
            v, e = reserved_.run(mir, path, [nid])
            want = next((n for n in range(17) if of % n == name), None)
            got = v[4][0][1] if v[0] == "adt" and v[3] == "Some" and v[4][0][0] == "i" else None if v[0] == "adt" and v[3] == "None" else v
            ck.oblige(got == want, "meaning:%s:%s" % (path, name), "%s takes %s for that of size %s" % (path, name, got))
