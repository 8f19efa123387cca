"""The chibi code generator as analysed code: instruction streams it emits for IR definitions, and their agreement with
the reference meaning of the IR under the documented calling conventions."""
from absint import *
import absint
from facts import Mir
import iomodel, stdmodels, irb
import terms as T
import x86sym as X
import rtspec as R
from terms import mk, bytes_of, K, V, EQ

GPN = {n: i for i, n in enumerate(["Rax", "Rcx", "Rdx", "Rbx", "Rsp", "Rbp", "Rsi", "Rdi", "R8", "R9", "R10", "R11", "R12", "R13", "R14", "R15"])}
CG = "llrl::backend::chibi::codegen::"


class Emit(Exception):
    pass


def hooks(e, st, c):
    d = strip_generics(c.d)
    if "WriteInstExt::" in d:
        st.emit("inst", d.split("::")[-1], tuple(e.snap(st, x) for x in c.args[1:]))
        return [(st, ok(UNIT))]
    if d.endswith("SectionWrite>::define") or d.endswith("SectionWrite::define"):
        s = repr(c.tr) + repr(c.targs)
        sec = "rodata" if "RodataWriter" in s else ("data" if "DataWriter" in s else ("bss" if "BssWriter" in s else "text"))
        st.emit("def", sec, e.snap(st, c.args[1]))
        return None
    if d.endswith("::Writer::produce"):
        st.emit("produce", e.snap(st, c.args[0]))
        return [(st, ok(("sym", "object", ("?",))))]
    if d.endswith("SyntaxMetadata as llrl::backend::native::data::NativeValue>::from_host") or d.endswith("NativeValue>::from_host") and "NativeSyntaxMetadata" in d:
        return [(st, ("app", "from_host", (c.args[0],), c.dty))]
    return iomodel.hooks(e, st, c)


def reg_index(adt, v):
    return v[2]


class Stream:
    def __init__(self):
        self.code, self.names, self.globals = [], {}, set()
        self.rodata, self.rodefs, self.uses = [], {}, []

    def rodata_at(self, lab, w):
        o = self.rodefs.get(lab)
        if o is None:
            return None
        out = list(self.rodata[o:o + w])
        for pos, target, addend, ty in self.uses:
            if pos == o and ty == "Abs64" and w == 8:
                return bytes_of(V(8, ("data", target, addend)))
        return out

    def text_label(self, name):
        return [l for l, n in self.names.items() if n == name]


class Chibi:
    def __init__(self, mir):
        self.mir = mir
        self.functions = set()
        self.streams = 0

    def engine(self):
        e = Engine(self.mir, hooks)
        return e, State()

    def decode(self, v, adts):
        """an instruction operand"""
        if v[0] == "i":
            return ("imm", v[1], v[2])
        if v[0] == "adt":
            n = v[1].split("::")[-1]
            if n.startswith("Gpr"):
                w = int(n[3:]) // 8
                nm = v[3]
                if w == 1:
                    if nm in ("Ah", "Ch", "Dh", "Bh"):
                        return ("r", {"A": 0, "C": 1, "D": 2, "B": 3}[nm[0]], 1, True)
                    base = {"Al": 0, "Cl": 1, "Dl": 2, "Bl": 3, "Spl": 4, "Bpl": 5, "Sil": 6, "Dil": 7}
                    i = base[nm] if nm in base else int(nm[1:].rstrip("blBL"))
                    return ("r", i, 1, False)
                vs = [x["n"] for x in self.mir.adts[v[1]]["variants"]]
                return ("r", self.gpr(nm), w, False)
            if n == "Xmm":
                return ("x", int(v[3][3:]))
            if n == "_Cl":
                return ("cl",)
            if n == "Label":
                return ("lab", v[4][0][1], "direct")
            if n == "AddressTable":
                return ("lab", v[4][0][4][0][1], "table")
            if n == "Short":
                return ("lab", v[4][0][4][0][1], "short")
            if n == "Memory":
                return self.mem(v[4][0])
            if n in ("EncodedAddress",):
                return self.mem(v)
        if v[0] in ("sym", "app"):
            return ("imm", v, "?")
        raise Emit("operand %s" % absint.show(v))

    def gpr(self, nm):
        if nm in GPN:
            return GPN[nm]
        if nm[0] == "E" and ("R" + nm[1:]) in GPN:
            return GPN["R" + nm[1:]]
        if ("R" + nm.lower()) in GPN:
            return GPN["R" + nm.lower()]
        if nm[0] == "R" and nm[1].isdigit():
            return int(nm[1:].rstrip("dwblDWBL"))
        raise Emit("register %s" % nm)

    def mem(self, enc):
        rm = enc[4][0]
        fs = [f["n"] for f in self.mir.adts[rm[1]]["variants"][0]["fields"]]
        f = dict(zip(fs, rm[4]))
        iv = lambda x: x[1]
        opt = lambda x: None if x[3] == "None" else x[4][0]
        mod, r, rx, rb = iv(f["mod_rm_mod"]), iv(f["mod_rm_rm"]), iv(f["rex_x"]), iv(f["rex_b"])
        disp = 0
        d = opt(f["disp"])
        if d is not None:
            if d[4][0][0] != "i":
                raise Emit("displacement %s" % absint.show(d))
            disp = d[4][0][1]
        base, index, scale = r | rb << 3, None, 1
        if mod == 3:
            raise Emit("register form in a memory operand")
        if r == 4:
            sb, si = opt(f["sib_base"]), opt(f["sib_index"])
            base = iv(sb) | rb << 3
            i = iv(si) | rx << 3
            if i != 4:
                index = i
                sc = opt(f["sib_scale"])
                scale = {"Scale1": 1, "Scale2": 2, "Scale4": 4, "Scale8": 8}[sc[3]] if sc else 1
            if iv(sb) == 5 and mod == 0:
                base = None
        elif r == 5 and mod == 0:
            base = "rip"
        if mod == 0 and d is not None and not (base in (None, "rip")):
            disp = 0
        return ("mem", base, index, scale, disp)

    # ---- compile
    def compile(self, defs, main=None):
        """defs: {n: python definition}; functions are named fun<n>; returns the emitted streams (one expected)"""
        e, st = self.engine()
        b = irb.Builder(e, st)
        rs = e.call_fn(st, "llrl::backend::chibi::context::Context::new", [])
        st, ctx = rs[0]
        ctx = e.new_cell(st, ctx)
        dm = e.new_cell(st, ("map", None, tuple((b.ctid(n), e.new_cell(st, b.def_(d))) for n, d in defs.items())))
        for s, _ in e.call_fn(st, "llrl::backend::chibi::context::Context::add_types", [ctx, dm]):
            st = s
        st.events = ()
        fns = e.new_cell(st, ("map", None, tuple((b.ctid(n), e.new_cell(st, b.def_(d))) for n, d in defs.items() if d[0] == "fn")))
        m = NONE
        if main is not None:
            m = some(e.new_cell(st, b.def_(("fn", main))[4][0]))
        out = e.call_fn(st, CG + "object", [fns, m, ctx])
        self.functions |= e.analysed
        self.streams += 1
        if e.panics or e.cuts or len(out) != 1:
            why = "; ".join(sorted({"%s at %s" % (p[2], p[1]) for p in e.panics} | {"cut in %s" % c[1] for c in e.cuts}))
            raise Emit("code generation %s" % ("panics: " + why if why else "has %d outcomes" % len(out)))
        return self.stream(out[0][0].events)

    def adapter(self):
        e, st = self.engine()
        b = irb.Builder(e, st)
        (st, ctx), = e.call_fn(st, "llrl::backend::chibi::context::Context::new", [])
        ctx = e.new_cell(st, ctx)
        m = some(e.new_cell(st, b.def_(("fn", b.function([], "u1", ("const", "int", "u1", False, 1), kind="Main")))[4][0]))
        empty = e.new_cell(st, ("map", None, ()))
        (st, _), = e.call_fn(st, CG + "object", [empty, m, ctx])
        st.events = ()
        out = e.call_fn(st, CG + "c_main_adapter_object", [ctx])
        self.functions |= e.analysed
        if e.panics or len(out) != 1:
            raise Emit("c_main_adapter_object: %d outcomes" % len(out))
        return self.stream(out[0][0].events)

    def stream(self, events):
        s = Stream()
        for ev in events:
            if ev[0] == "inst":
                s.code.append(("inst", ev[1], tuple(self.decode(x, None) for x in ev[2])))
            elif ev[0] == "def" and ev[1] == "text":
                s.code.append(("label", ev[2][4][0][1]))
            elif ev[0] == "produce":
                w = ev[1]
                fs = [f["n"] for f in self.mir.adts[w[1]]["variants"][0]["fields"]]
                f = dict(zip(fs, w[4]))
                for k, v in f["names"][2]:
                    nm = k[1]
                    s.names[v[4][0][1]] = "fun" + nm if nm.isdigit() else nm
                cur = f["rodata"]
                s.rodata = [x[1] if x[0] == "i" else x for x in cur[4][0][1]]
                for i, d in enumerate(f["defs"][1]):
                    if d[3] == "Some":
                        loc = d[4][0]
                        df = dict(zip([q["n"] for q in self.mir.adts[loc[1]]["variants"][0]["fields"]], loc[4]))
                        sec, pos = df["location"][4]
                        if sec[3] == "Rodata":
                            s.rodefs[i] = pos[1]
                        if df["is_global"][1]:
                            s.globals.add(i)
                for u in f["uses"][1]:
                    uf = dict(zip([q["n"] for q in self.mir.adts[u[1]]["variants"][0]["fields"]], u[4]))
                    sec, pos = uf["location"][4]
                    s.uses.append((pos[1], uf["target"][4][0][1], uf["addend"][1], uf["ty"][3]))
        return s


# ---- calling conventions -------------------------------------------------------------------------------------------
GPS = [X.RDI, X.RSI, X.RDX, X.RCX, 8, 9]


def ret_regs(types, t):
    """[(kind, index)] per eightbyte for a register return, or None for memory"""
    cs = types.classes(t)
    if cs is None:
        return None
    g, x = [0, 2], [0, 1]
    return [("r", g.pop(0)) if c == "I" else (("x", x.pop(0)) if c == "F" else None) for c in cs]


class Caller:
    """the behaviour of callees at a call instruction"""

    def __init__(self, types, sigs, result=None):
        self.types, self.sigs = types, sigs

    def on_call(self, m, s, target):
        name = target[1]
        if target[0] == "ind" and name[0] == "v" and isinstance(name[2], tuple) and name[2][0] == "sym":
            name = name[2][1]
        sig = self.sigs.get(name)
        if name == "GC_malloc":
            n = mk(s.r[X.RDI])
            s.allocs.append(n)
            k = len(s.allocs)
            m.clobber(s)
            s.r[X.RAX] = bytes_of(V(8, "alloc#%d" % k))
            return
        LM = {"ceil", "floor", "trunc", "round", "sqrt", "sin", "cos", "exp", "log", "fmod", "pow"}
        if isinstance(name, str) and (name in LM or (name[-1] == "f" and name[:-1] in LM)):
            w = 8 if name in LM else 4
            f = name if w == 8 else name[:-1]
            args = [mk(s.x[i][:w]) for i in range(2 if f in ("fmod", "pow") else 1)]
            m.clobber(s)
            s.x[0][:w] = bytes_of(T.OP(w, f, *args))
            return
        if sig is None:
            raise X.Bad("call", "call to %s, which is no callee of this expression" % (name if isinstance(name, str) else T.show(name)))
        kind, args, ret = sig
        regs = ret_regs(self.types, ret)
        o = s.rsp()
        vals = []
        retp = None
        nstack = 0
        if kind == "c":
            gi, xi = 0, 0
            if regs is None:
                retp = mk(s.r[X.RDI])
                gi = 1
            for t in args:
                cs = self.types.classes(t)
                n = self.types.size(t)
                ng, nx = (cs or []).count("I"), (cs or []).count("F")
                if cs == []:
                    vals.append([])
                    continue
                if cs is not None and gi + ng <= 6 and xi + nx <= 8:
                    bs = []
                    for c in cs:
                        if c == "I":
                            bs += s.r[GPS[gi]]
                            gi += 1
                        elif c == "F":
                            bs += s.x[xi][:8]
                            xi += 1
                        else:
                            bs += s.junk(8)
                    vals.append(bs[:n])
                else:
                    vals.append(("stack", nstack, n))
                    nstack += -(-n // 8) * 8
            vals = [m.rdmem(s, T.ADD(s.reg(X.RSP), K(8, v[1])), v[2]) if isinstance(v, tuple) else v for v in vals]
            extra = None
        else:
            off = sum(-(-self.types.size(t) // 8) * 8 for t in args)
            nstack = off
            for t in args:
                n = self.types.size(t)
                off -= -(-n // 8) * 8
                vals.append(m.rdmem(s, T.ADD(s.reg(X.RSP), K(8, off)), n) if n else [])
            extra = ("env", list(s.r[X.RSI]))
            if regs is None:
                retp = mk(s.r[X.RDI])
        n = s.ncall.get(name, 0)
        s.ncall[name] = n + 1
        snap = None
        if any(_is_stack(mk(v)) for v in vals if len(v) == 8):
            snap = dict(s.stack)
        s.heap.event("call", name, [(t, list(v)) for t, v in zip(args, vals)], extra, snap)
        if name == "llrt_panic":
            s.out = ("noreturn",)
            return
        m.clobber(s, nstack)
        res = [b if b != R.PAD else s.junk(1, "rpad")[0] for b in R.fresh(self.types, ret, "%s#%d" % (name if isinstance(name, str) else T.show(name), n))]
        if regs is None:
            so = X.stack_off(retp)
            if so is None:
                raise X.Bad("call", "the result of %s is written to %s, outside this frame" % (name, T.show(retp)))
            if so < o:
                raise X.Bad("stack", "the result of %s is written below the stack pointer" % (name,))
            m.wrmem(s, retp, res)
            s.r[X.RAX] = bytes_of(retp)
        else:
            for i, r in enumerate(regs):
                part = res[8 * i:8 * i + 8]
                if r is None:
                    continue
                if r[0] == "r":
                    s.r[r[1]] = part + s.junk(8 - len(part))
                else:
                    s.x[r[1]] = part + s.junk(16 - len(part))


def _is_stack(t):
    return t[0] == "lin" and any(x == X.RSP0 for x, _ in t[2]) or t == X.RSP0


def fresh_base(e):
    """the allocation a store initialises"""
    if e[0] == "store" and len(e[1]) == 1 and e[1][0][1] == 1 and e[1][0][0][0] == "v" and str(e[1][0][0][2]).startswith("alloc#"):
        return e[1][0][0]
    return None


def mentions(e, terms):
    """which of these terms an effect makes visible to others"""
    out = set()

    def look(t):
        for x in T.subterms(t):
            if x in terms:
                out.add(x)

    def byte(b):
        if isinstance(b, tuple) and b[0] not in ("S", "J"):
            look(b[0])
    if e[0] == "store":
        for t, _ in e[1]:
            look(t)
        for b in e[2].values():
            byte(b)
    else:
        if isinstance(e[1], tuple):
            look(e[1])
        for _, v in e[2]:
            for b in v:
                byte(b)
        if e[3]:
            for b in e[3][1]:
                byte(b)
        for b in (e[4] or {}).values():
            byte(b)
    return out


def settle(log, final=None):
    """Nothing can observe the contents of a fresh allocation before its address is passed on: its initialisation is moved
    to that point.  At the end only what the result refers to remains (final None: everything, in an unfinished run)."""
    if not any(fresh_base(e) for e in log):
        return log
    out, pend = [], {}

    def flush(b):
        d = pend.pop(b, None)
        if d is not None:
            for c in mentions(("store", (), d), set(pend)):
                flush(c)
            out.append(("store", ((b, 1),), d))
    done = set()
    for e in log:
        b = fresh_base(e)
        if b is not None and b not in done:
            pend.setdefault(b, {}).update(e[2])
            continue
        if pend:
            for c in sorted(mentions(e, set(pend)), key=repr):
                flush(c)
                done.add(c)
        out.append(e)
    keep = set(pend) if final is None else mentions(("store", (), dict(enumerate(final))), set(pend))
    for b in sorted(keep, key=repr):
        flush(b)
    return out


# ---- comparing one path with the specification ---------------------------------------------------------------------
class Cmp:
    def __init__(self, types, s, spec, mask_pad=True):
        self.types, self.s, self.spec = types, s, spec
        self.bind = {}
        self.data = None

    def value(self, t, sp, m, what, stack=None):
        """None or a difference"""
        if len(sp) != len(m):
            return "%s has %d bytes instead of %d" % (what, len(m), len(sp))
        _, _, fs = self.types.lay(t)
        pos = 0
        for o, k, c in fs:
            a, b = sp[o:o + k], m[o:o + k]
            d = self.scalar(a, b, stack)
            if d:
                return "%s%s is %s instead of %s" % (what, "" if len(fs) == 1 else " at offset %d" % o, T.showbs(b), T.showbs(a))
        return None

    def scalar(self, a, b, stack=None):
        if all(x == y or x == R.PAD for x, y in zip(a, b)):
            return None
        if any(x == R.PAD for x in a):
            # partly unspecified: compare the runs
            return True
        ta, tb = mk(a), mk(b)
        if ta[0] == "v" and isinstance(ta[2], str) and ta[2].startswith("sa#"):
            return self.salloc(ta, tb, stack)
        if ta[0] == "v" and isinstance(ta[2], tuple) and ta[2][0] == "any":
            return None if any(isinstance(x, tuple) and x[:1] == ("sym",) and x[1] == ta[2][1] for x in T.subterms(tb)) else True
        if ta[0] == "v" and isinstance(ta[2], tuple) and ta[2][0] == "rodata":
            return None if self.rodata(ta[2][1], tb) else True
        return None if R.accept(ta, tb, self.s.pc) else True

    def rodata(self, want, t):
        if t[0] != "v" or not isinstance(t[2], tuple) or t[2][0] != "lab":
            return False
        o = self.data.rodefs.get(t[2][1])
        return o is not None and bytes(self.data.rodata[o:o + len(want)]) == want

    def salloc(self, p, t, stack):
        """a statically allocated stack object: a stable address inside the frame, disjoint from the others"""
        if not _is_stack(t):
            return True
        o = X.stack_off(t)
        size, align = self.spec.sasize[p]
        if p in self.bind:
            return None if self.bind[p] == o else True
        if (o - 8) % max(align, 1) or o + size > -8 + 0 or (o < self.s.rsp() and self.s.out is None):
            return True
        for q, (qo, qn) in [(q, (self.bind[q], self.spec.sasize[q][0])) for q in self.bind]:
            if o < qo + qn and qo < o + size:
                return True
        self.bind[p] = o
        st = self.s.stack if stack is None else stack
        for i, b in self.spec.heap.sa.get(p, {}).items():
            if b != R.PAD and st.get(o + i) != b and self.scalar([b], [st.get(o + i, ("J", "gone"))]):
                return True
        return None

    def key(self, ksp, km):
        return ksp == km

    def log(self, prefix, final=None):
        """compare the effect logs; with `prefix` the specification may stop early"""
        A = settle(self.spec.heap.log, None if prefix else (final or [[], []])[0])
        Bm = settle([e for e in self.s.heap.log if e[0] != "note"], None if prefix else (final or [[], []])[1])
        for i, a in enumerate(A):
            if i >= len(Bm):
                if prefix and self.s.out[0] == "cut" and 2 * len(Bm) >= len(A):
                    return None             # two unfinished runs: the common part agrees
                return "%s is missing" % self.ev(a)
            b = Bm[i]
            if a[0] != b[0]:
                return "%s instead of %s" % (self.ev(b), self.ev(a))
            if a[0] == "store":
                if a[1] != b[1]:
                    return "%s instead of %s" % (self.ev(b), self.ev(a))
                base = "+".join(T.show(x) for x, _ in a[1])
                last = i == len(A) - 1 and prefix
                for off in sorted(b[2]):
                    if off not in a[2] and not last and self.outside(a[1], off, b[2][off]):
                        return "writes %s at %s%+d, outside the stored value" % (T.showb(b[2][off]), base, off)
                offs = sorted(a[2])
                j = 0
                while j < len(offs):
                    if a[2][offs[j]] == R.PAD:
                        j += 1
                        continue
                    # the longest run that forms one scalar of the specification
                    n = self.run_len(a[2], offs, j)
                    sa = [a[2][offs[j + q]] for q in range(n)]
                    sb = [b[2].get(offs[j + q], ("J", "unwritten")) for q in range(n)]
                    if self.scalar(sa, sb):
                        return "stores %s at %s%+d instead of %s" % (T.showbs(sb), base, offs[j], T.showbs(sa))
                    j += n
            else:
                if a[1] != b[1]:
                    return "%s instead of %s" % (self.ev(b), self.ev(a))
                if len(a[2]) != len(b[2]):
                    return "call to %s with %d arguments" % (a[1], len(b[2]))
                for q, ((t, x), (_, y)) in enumerate(zip(a[2], b[2])):
                    d = self.value(t, x, y, "argument %d of %s" % (q + 1, a[1] if isinstance(a[1], str) else T.show(a[1])), b[4])
                    if d:
                        return d
                if a[3] is not None:
                    d = self.scalar(a[3][1], b[3][1] if b[3] else [("J", "none")] * 8)
                    if d:
                        return "environment passed to %s is %s instead of %s" % (T.show(a[1]), T.showbs(b[3][1]) if b[3] else "none", T.showbs(a[3][1]))
        if not prefix and len(Bm) > len(A):
            return "extra effect: %s" % self.ev(Bm[len(A)])
        return None

    def outside(self, base, off, b):
        """may a byte outside the stored value not be written?"""
        return True

    def run_len(self, d, offs, j):
        b = d[offs[j]]
        n = 1
        if isinstance(b, tuple) and b[0] not in ("S", "J"):
            t, i = b
            while j + n < len(offs) and offs[j + n] == offs[j] + n and isinstance(d[offs[j + n]], tuple) and d[offs[j + n]][0] == t and d[offs[j + n]][1] == i + n:
                n += 1
        return n

    def ev(self, e):
        if e[0] == "store":
            return "store to %s" % "+".join(T.show(x) for x, _ in e[1])
        return "call of %s" % (e[1] if isinstance(e[1], str) else T.show(e[1]))

    def allocs(self):
        n = 0
        for i, (a, b) in enumerate(zip(self.spec.allocs, self.s.allocs)):
            if a is None:
                continue
            if a[0] == "atleast":
                if b[0] != "k" or b[2] < a[1]:
                    return "allocation of %s bytes where at least %d are needed" % (T.show(b), a[1])
            elif a != b and not (a[0] == "k" and b[0] == "k" and b[2] >= a[2]):
                return "allocation of %s bytes instead of %s" % (T.show(b), T.show(a))
        return None


BUILTINS = {
    "llrt_string_genid": ("c", [], "string"),
    "llrt_string_eq": ("c", ["string", "string"], "u1"),
    "llrt_string_cmp": ("c", ["string", "string"], "s32"),
    "llrt_string_concat": ("c", ["string", "string"], "string"),
    "llrt_panic": ("c", ["string"], "unit"),
    "memcpy": ("c", ["u64", "u64", "u64"], "u64"),
    "memmove": ("c", ["u64", "u64", "u64"], "u64"),
}


class Case:
    """one function of the IR: types, parameters, body, callees"""

    def __init__(self, name, params, ret, body, sigs=None, defs=None, env=None, kind="Standard", exact=True, odd=False):
        self.name, self.params, self.ret, self.body = name, params, ret, body
        self.sigs, self.defs, self.env, self.kind = dict(sigs or {}), dict(defs or {}), env, kind
        self.exact, self.odd = exact, odd


def entry_state(types, case, envslots=None):
    """machine state at function entry under the default convention"""
    s = X.St()
    vals = {}
    off = 8
    if case.kind == "Macro":
        i, t = case.params[0]
        vals[i] = R.fresh(types, t, "p%d" % i)
        s.r[X.RSI] = vals[i] + s.junk(8 - len(vals[i]))
    else:
        for i, t in reversed(case.params):
            n = types.size(t)
            vals[i] = R.fresh(types, t, "p%d" % i)
            slot = -(-n // 8) * 8
            for j in range(slot):
                s.stack[off + j] = vals[i][j] if j < n and vals[i][j] != R.PAD else ("J", "apad%d" % (off + j))
            off += slot
    for j, b in enumerate(bytes_of(V(8, "retaddr"))):
        s.stack[j] = b
    if case.env is not None:
        s.r[X.RSI] = bytes_of(V(8, "envp"))
        vals[case.env[0]] = bytes_of(V(8, "envp"))
        for (i, t), o in zip(case.env[1], envslots):
            n = types.size(t)
            vals[i] = [b if m else R.PAD for b, m in zip(R.Heap().load(T.ADD(V(8, "envp"), K(8, o)) if n else V(8, "envp"), n), types.mask(t))]
    if ret_regs(types, case.ret) is None:
        s.r[X.RDI] = bytes_of(V(8, "retp"))
    return s, vals


def check(cg, case, envslots=None):
    """[(category, text)] for one case; category: value | stack | align | saved | emit"""
    defs = dict(case.defs)
    types = R.Types(defs)
    sigs = dict(BUILTINS)
    sigs.update(case.sigs)
    dd = {}
    e, st = None, None
    out = []
    try:
        stream, entry = cg.function(case)
    except Emit as x:
        return [("emit", str(x))], None
    caller = Caller(types, sigs)
    m = X.Machine(stream, caller.on_call)
    m.entry_label = entry
    s0, vals = entry_state(types, case, envslots)
    try:
        done = m.run(entry, s0)
    except X.Unsupported as x:
        return [("emit", "not analysed: %s" % x)], None
    info = {"paths": len(done), "insts": m.count, "done": done, "specs": []}
    for s in done:
        # a translation may evaluate the arguments of a C call from either end
        best = None
        for order in ("lr", "rl", "stack", "lr-first"):
            diffs, sps = against(types, case, s, vals, order, stream)
            if not diffs:
                best = []
                info["specs"] += sps
                break
            best = best or diffs
        for d in best:
            if d not in out:
                out.append(d)
    if not done:
        out.append(("value", "no path reaches the end"))
    return out, info


def env_slots(cg, case):
    """where a function finds the elements of its environment"""
    types = R.Types(dict(case.defs))
    sigs = dict(BUILTINS)
    sigs.update(case.sigs)
    stream, entry = cg.function(case)
    m = X.Machine(stream, Caller(types, sigs).on_call)
    m.entry_label = entry
    s0, _ = entry_state(types, case, [0] * len(case.env[1]))
    out = {}
    for s in m.run(entry, s0):
        got = [e for e in s.heap.log if e[0] == "call" and not isinstance(e[1], str)]
        for (i, t), e in zip(case.env[1], got):
            n = types.size(t)
            cand = [0] if n == 0 else []
            for o in range(0, 2048):
                if n and all(not k or x == y for x, y, k in zip(R.Heap().load(T.ADD(V(8, "envp"), K(8, o)), n), e[2][0][1], types.mask(t))):
                    cand.append(o)
            if n and types.mask(t).count(True) == 0:
                cand = [0]
            out.setdefault(i, cand)
    if any(len(out.get(i, [])) != 1 for i, _ in case.env[1]):
        raise Emit("the place of %s in the environment is not known" % [i for i, _ in case.env[1] if len(out.get(i, [])) != 1])
    slots = [out[i][0] for i, _ in case.env[1]]
    used = sorted((o, o + types.size(t)) for (i, t), o in zip(case.env[1], slots) if types.size(t))
    if any(a[1] > b[0] for a, b in zip(used, used[1:])):
        raise Emit("elements of the environment overlap: %s" % used)
    return slots


def against(types, case, s, vals, order, stream):
    out = []
    work = [dict(s.pc)]
    sps = []
    while work:
        pc = work.pop()
        sp = R.Spec(types, pc, order)
        sp.envslots = getattr(case, "envslots", {})
        sp.env = {k: list(v) for k, v in vals.items()}
        res = sp.run(case.body)
        if res[0] == "undecided" and s.out[0] != "cut":
            for v in (True, False):
                q = dict(pc)
                q[res[1]] = v
                work.append(q)
            if len(work) > 64:
                return [("value", "too many partitions")], sps
            continue
        c = Cmp(types, s, sp)
        saved_pc, s.pc = s.pc, pc
        c.data = stream
        try:
            out += judge(types, case, s, sp, res, c)
        finally:
            s.pc = saved_pc
        sps.append((sp, c))
    return out, sps


def judge(types, case, s, sp, res, c):
    where = "" if not s.pc else " when " + " and ".join(sorted((T.show(k) if v else "not " + T.show(k)) for k, v in s.pc.items()))
    out = []
    if res[0] == "unreachable":
        d = c.log(True)
        return [("value", d + where)] if d else []
    for b in s.bad:
        out.append((b[0], b[1] + where))
    if s.out[0] == "bad":
        return out
    if s.out[0] == "cut":
        d = c.log(True) if res[0] in ("undecided", "cut") else "the loop does not end" + where
        return out + ([("value", d + where)] if d else [])
    if s.out[0] == "noreturn":
        return out + [("value", "panics" + where)]
    if res[0] != "ret":
        return out + [("value", "returns instead of continuing" + where)]
    # result
    bs = res[1]
    regs = ret_regs(types, case.ret)
    n = types.size(case.ret)
    if regs is None:
        if mk(s.r[X.RAX]) != V(8, "retp"):
            out.append(("ret", "rax does not hold the address of the returned value" + where))
        sp.heap.store(V(8, "retp"), bs)
        d = c.log(False)
        if d:
            out.append(("value", d + where))
    else:
        got = []
        for r in regs:
            got += s.junk(8) if r is None else (s.r[r[1]] if r[0] == "r" else s.x[r[1]][:8])
        d = c.value(case.ret, bs, got[:n], "the result") if n else None
        d = d or c.log(False, (bs, got[:n]))
        if d:
            out.append(("value", d + where))
    d = c.allocs()
    if d:
        out.append(("value", d + where))
    return out


def _function(self, case):
    e, st = self.engine()
    defs = dict(case.defs)
    b = irb.Builder(e, st)
    rs = e.call_fn(st, "llrl::backend::chibi::context::Context::new", [])
    st, ctx = rs[0]
    ctx = e.new_cell(st, ctx)
    built = {n: b.def_(d) for n, d in defs.items()}
    dm = e.new_cell(st, ("map", None, tuple((b.ctid(n), e.new_cell(st, d)) for n, d in built.items())))
    rs = e.call_fn(st, "llrl::backend::chibi::context::Context::add_types", [ctx, dm])
    if len(rs) != 1 or e.panics:
        raise Emit("type registration has %d outcomes" % len(rs))
    st = rs[0][0]
    st.events = ()
    f = b.function(case.params, case.ret, case.body, case.env, case.kind)
    main, fns = NONE, []
    if case.kind == "Main":
        main = some(e.new_cell(st, f))
    else:
        fns.append((b.ctid(1), e.new_cell(st, b.def_(("fn", f)))))
    others = irb.callees(case.body, {})
    others.update(getattr(case, "others", {}))
    others.pop(1, None)
    for n, d in others.items():
        fns.append((b.ctid(n), e.new_cell(st, b.def_(("fn", b.function(*d))))))
    fm = e.new_cell(st, ("map", None, tuple(fns)))
    rs = e.call_fn(st, CG + "object", [fm, main, ctx])
    self.functions |= e.analysed
    self.streams += 1
    if e.panics or e.cuts or len(rs) != 1:
        why = sorted({"%s in %s" % (p[2], p[1].split("::")[-1]) for p in e.panics} | {"cut in %s" % c[1] for c in e.cuts})
        raise Emit("code generation %s" % ("fails: " + "; ".join(why) if why else "has %d outcomes" % len(rs)))
    s = self.stream(rs[0][0].events)
    name = "llrl_main" if case.kind == "Main" else "fun1"
    ls = [l for l, n in s.names.items() if n == name]
    if len(ls) != 1:
        raise Emit("no symbol for the function")
    return s, ls[0]


Chibi.function = _function


def typed(self, case):
    """None, or how the type the IR computes for the body of a case differs from the type of its value"""
    e, st = self.engine()
    b = irb.Builder(e, st)
    want = R.Spec(R.Types(dict(case.defs)), {}).ty(case.body)
    want = None if want is None else e.snap(st, b.ct(want))
    rs = e.call_fn(st, "llrl::lowering::ir::rt::Rt::ty", [e.new_cell(st, b.term(case.body))])
    self.functions |= e.analysed
    if e.panics or e.cuts or len(rs) != 1:
        return "the type is not computed: %s" % ("; ".join(sorted("%s in %s" % (p[2], p[1].split("::")[-1]) for p in e.panics)) or "%d outcomes" % len(rs))
    st, r = rs[0]
    r = e.snap(st, r)
    got = None
    if r[0] != "adt" or r[3] not in ("Some", "None"):
        return "the type is not known: %s" % show(r)[:100]
    if r[3] == "Some":
        got = r[4][0]
        if got[0] == "adt" and got[1].endswith("::Cow"):
            got = e.snap(st, got[4][0])
    return None if got == want else "the type of the value is computed as %s, not %s" % (show_ct(got), show_ct(want))


def show_ct(v):
    if v is None:
        return "none"
    if v[0] == "adt":
        return v[3] + ("(%s)" % ", ".join(show_ct(x) for x in v[4]) if v[4] else "")
    return str(v[1]) if v[0] == "i" else show(v)[:80]


Chibi.typed = typed


def check_adapter(cg):
    """the C entry point: [(category, text)]"""
    stream = cg.adapter()
    ls = [l for l, n in stream.names.items() if n == "main"]
    if len(ls) != 1 or ls[0] not in stream.globals:
        return [("entry", "no global symbol main")], 0
    types = R.Types({})
    m = X.Machine(stream, Caller(types, {"llrt_init": ("c", ["s32", "u64"], "unit"), "llrl_main": ("c", [], "u1")}).on_call)
    m.entry_label = ls[0]
    s = X.St()
    for j, b in enumerate(bytes_of(V(8, "retaddr"))):
        s.stack[j] = b
    argc, argv = V(8, "argc"), V(8, "argv")
    s.r[X.RDI], s.r[X.RSI] = bytes_of(argc), bytes_of(argv)
    out = []
    done = m.run(ls[0], s)
    for s in done:
        out += [(b[0], b[1]) for b in s.bad]
        if s.out is None or s.out[0] != "ret":
            out.append(("entry", "does not return: %s" % (s.out,)))
            continue
        calls = [e for e in s.heap.log if e[0] == "call"]
        if [e[1] for e in calls] != ["llrt_init", "llrl_main"]:
            out.append(("entry", "calls %s instead of llrt_init and then the program" % [e[1] for e in calls]))
        elif mk(calls[0][2][0][1]) != mk(bytes_of(argc)[:4]) or mk(calls[0][2][1][1]) != argv:
            out.append(("entry", "llrt_init is not given the arguments of main"))
        if mk(s.r[X.RAX][:4]) != K(4, 0):
            out.append(("entry", "returns %s instead of 0" % T.showbs(s.r[X.RAX][:4])))
    if not done:
        out.append(("entry", "no path returns"))
    return out, m.count


def driver(mir=None):
    return Chibi(mir or Mir(["llrl", "xten"], canon=True))
