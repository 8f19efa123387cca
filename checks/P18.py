"""Loading objects into the JIT engine: placement, protection, symbols and relocations."""
import itertools
from facts import Mir
from absint import *
import stdmodels
import iomodel
from iomodel import lin
from P16 import SECT, FIELD, OBJ, bounds
from P17 import Shape, S, U64, I64

LEVEL = "other"
ENG = "xten::jit::Engine::<R>::"
PAGE = 4096
R, W, X = 1, 2, 4
NULL = I(0, "usize")
RES_T = ("fnptr", ())


class World:
    """kernel and pointer primitives, recorded; `fail` = the n-th system call fails"""

    def __init__(self, fail=None, resolver=None):
        self.fail, self.resolver = fail, resolver or {}

    def sys(self, st, what):
        n = st.notes["sys"] = st.notes.get("sys", 0) + 1
        return n == self.fail

    def note(self, st, key, x):
        st.notes[key] = st.notes.get(key, ()) + (x,)

    def bad(self, st, text):
        self.note(st, "bad", text)

    def addr(self, e, st, v):
        v = e.res(st, v)
        while v[0] == "app" and v[1].startswith("as:"):
            v = v[2][0]
        return lin(v)

    def region(self, st, a, n):
        for b, (ln, prot) in st.notes.get("maps", {}).items():
            if b <= a[0] and a[0] + n <= b + ln:
                return b, ln, prot
        return None

    def write(self, e, st, p, n, val):
        a = self.addr(e, st, p)
        r = self.region(st, a, 0 if a[1] else n)
        if r is None:
            self.bad(st, "a write of %d bytes at %s is outside every mapping" % (n, a))
        elif not r[2] & W:
            self.bad(st, "a write at %s goes to a mapping that is not writable at that moment" % (a,))
        self.note(st, "writes", (a, n, val))

    def hooks(self, e, st, c):
        d = strip_generics(c.d)
        m = d.split("::")[-1]
        if d == "libc::mmap" or d.endswith("unix::mmap"):
            a = [e.res(st, x) for x in c.args]
            if self.sys(st, "mmap"):
                return [(st, I((1 << 64) - 1, "usize"))]
            if any(x[0] != "i" for x in a[1:4]) or a[1][1] <= 0:
                self.bad(st, "mmap with arguments %s" % [show(x) for x in a])
                return []
            if a[3][1] & 0x22 != 0x22 or a[3][1] & 0x10:
                self.bad(st, "mmap flags %#x are not private anonymous" % a[3][1])
            maps = dict(st.notes.get("maps", {}))
            k = st.notes["nmap"] = st.notes.get("nmap", 0) + 1
            base = k << 40
            if (a[2][1] & (W | X)) == W | X:
                self.bad(st, "a mapping is created writable and executable")
            maps[base] = (-(-a[1][1] // PAGE) * PAGE, a[2][1])
            st.notes["maps"] = maps
            return [(st, I(base, "usize"))]
        if d == "libc::mprotect" or d.endswith("unix::mprotect"):
            a = self.addr(e, st, c.args[0])
            n, pr = e.res(st, c.args[1]), e.res(st, c.args[2])
            maps = dict(st.notes.get("maps", {}))
            if self.sys(st, "mprotect"):
                return [(st, I(-1, "i32"))]
            if a[1] or a[0] not in maps or n[0] != "i" or -(-n[1] // PAGE) * PAGE != maps[a[0]][0] or pr[0] != "i":
                self.bad(st, "mprotect of %s length %s protection %s does not cover one mapping" % (a, show(n), show(pr)))
                return [(st, I(0, "i32"))]
            if (pr[1] & (W | X)) == W | X:
                self.bad(st, "a mapping is made writable and executable at once")
            maps[a[0]] = (maps[a[0]][0], pr[1])
            st.notes["maps"] = maps
            return [(st, I(0, "i32"))]
        if d == "libc::munmap" or d.endswith("unix::munmap"):
            a, n = self.addr(e, st, c.args[0]), e.res(st, c.args[1])
            maps = dict(st.notes.get("maps", {}))
            if a[1] or a[0] not in maps or n[0] != "i" or -(-n[1] // PAGE) * PAGE != maps[a[0]][0]:
                self.bad(st, "munmap of %s length %s is not one live mapping" % (a, show(n)))
            maps.pop(a[0], None)
            st.notes["maps"] = maps
            self.note(st, "unmapped", a[0])
            return [(st, I(0, "i32"))]
        if m == "__errno_location" or d == "std::io::Error::last_os_error":
            return [(st, ("sym", "errno", ("ptr", 1, ("prim", "i32"))))]
        if d.startswith("std::ptr::") or d.startswith("core::ptr::"):
            if m in ("null", "null_mut"):
                return [(st, NULL)]
            if m == "is_null":
                v = self.addr(e, st, c.args[0])
                return [(st, B(not v[1] and v[0] == 0))]
            if m in ("wrapping_add", "wrapping_offset", "add", "offset", "byte_add", "wrapping_byte_add"):
                return [(st, ("app", "wrapping_offset", (c.args[0], c.args[1]), U64))]
            if m in ("wrapping_sub", "sub"):
                return [(st, ("app", "Sub", (c.args[0], c.args[1]), U64))]
            if m in ("offset_from", "byte_offset_from"):
                return [(st, ("app", "Sub", (c.args[0], c.args[1]), I64))]
            if m in ("cast", "cast_mut", "cast_const", "expose_provenance", "addr"):
                return [(st, c.args[0])]
            if m in ("copy", "copy_nonoverlapping", "copy_from", "copy_from_nonoverlapping", "copy_to", "copy_to_nonoverlapping"):
                s, t = (c.args[1], c.args[0]) if "from" in m else (c.args[0], c.args[1])
                n = e.res(st, c.args[2])
                src = e.snap(st, e.through(st, s))
                if n[0] != "i" or src[0] != "arr" or n[1] > len(src[1]):
                    self.bad(st, "a copy of %s bytes out of %s" % (show(n), show(src)[:60]))
                    return [(st, UNIT)]
                self.write(e, st, t, n[1], src[1][:n[1]])
                return [(st, UNIT)]
            if m == "write_bytes":
                v, n = e.res(st, c.args[1]), e.res(st, c.args[2])
                if v[0] != "i" or n[0] != "i":
                    self.bad(st, "write_bytes of %s x %s" % (show(v), show(n)))
                    return [(st, UNIT)]
                self.write(e, st, c.args[0], n[1], ("fill", v[1]))
                return [(st, UNIT)]
            if m in ("write", "write_unaligned", "write_volatile"):
                t = c.targs[0] if c.targs else ("?",)
                n = BITS.get(t[1], 64) // 8 if t[0] == "prim" else 8
                self.write(e, st, c.args[0], n, c.args[1])
                return [(st, UNIT)]
        if m in ("as_ptr", "as_mut_ptr") and c.path not in e.mir.fns:
            v = e.through(st, c.args[0])
            if v[0] in ("arr", "b"):
                return [(st, c.args[0])]
        if d in ("std::mem::size_of", "core::mem::size_of"):
            t = c.targs[0]
            return [(st, I(BITS.get(t[1], 64) // 8 if t[0] == "prim" else 8, "usize"))]
        if d in ("std::ops::FnMut::call_mut", "std::ops::Fn::call", "std::ops::FnOnce::call_once"):
            f = e.through(st, c.args[0])
            if f[0] == "sym" and f[1] == "resolver":
                a = e.snap(st, e.through(st, c.args[1][1][0]))
                self.note(st, "resolved", a[1] if a[0] == "s" else show(a))
                return [(st, I(self.resolver.get(a[1] if a[0] == "s" else None, 0), "usize"))]
        return None


RESOLVER = ("sym", "resolver", ("?",))


class Run:
    """one engine and the operations performed on it"""

    def __init__(self, ck, mir, resolver=None, fail=None, why=""):
        self.ck, self.mir, self.why = ck, mir, why
        self.w = World(fail, resolver)
        self.e = Engine(mir, self.w.hooks, max_visits=100000)
        self.e.drops = True
        self.st = State()
        r = self.e.call_fn(self.st, ENG + "new", [RESOLVER], (RES_T,))
        (self.st, v), = r
        self.eng = self.e.new_cell(self.st, v)

    def step(self, fn, *args):
        """the outcome of an operation: [(state, value)] (the first state is kept)"""
        e = self.e
        e.panics.clear()
        rs = e.call_fn(self.st, ENG + fn, [self.eng] + list(args), (RES_T,))
        out = [(s, e.snap(s, v)) for s, v in rs]
        if out:
            self.st = out[0][0]
        return out

    def add(self, shape):
        return self.step("add_object", self.e.new_cell(self.st, shape.value()))

    def get(self, name):
        v = self.step("get", ("s", name))
        return v[0][1] if len(v) == 1 else None


def sized(mir, n, syms, relocs):
    return Shape(mir, n[:3], syms, relocs, I(n[3], "u64"))


WIDTH = {"PcRel8": (1, -128, 127), "PcRel32": (4, -1 << 31, (1 << 31) - 1), "PcRelToAddressTable32": (4, -1 << 31, (1 << 31) - 1), "Abs64": (8, None, None)}
PROT = {"Text": R | X, "Rodata": R, "Data": R | W, "Bss": R | W}


def tag(sh, t):
    """the same shape with its symbolic bytes, positions and addends named apart"""
    sh.tag = t
    sh.pre = t + "."
    sh.body = {s: tuple(("sym", "%s.%s" % (t, x[1]), x[2]) for x in b) for s, b in sh.body.items()}
    sh.pos = lambda name: S("%s.at:%s" % (t, name))
    return sh


def regions(run, sh, seen, key):
    """where the section contents went: section -> base; disjoint from everything loaded before"""
    ck, st = run.ck, run.st
    base = {}
    for s in SECT[:3]:
        body = sh.body[s]
        if not body:
            continue
        hits = [(a, n) for a, n, v in st.notes.get("writes", ()) if v == body]
        if not ck.oblige(len(hits) == 1 and not hits[0][0][1] and hits[0][1] == len(body), key + ":load", "%s: section %s is copied %d times" % (run.why, s, len(hits))):
            return None
        base[s] = hits[0][0][0]
    for s, b, sec in sh.syms:
        if sec == "Bss" and b == "G":
            v = run.get(s)
            if v is not None and v[0] == "adt" and v[3] == "Some":
                c, m = run.w.addr(run.e, run.st, v[4][0])
                base["Bss"] = c
    for s, b in base.items():
        n = len(sh.body[s]) if s != "Bss" else sh.bss[1]
        r = [(mb, ln, p) for mb, (ln, p) in st.notes["maps"].items() if mb <= b and b + n <= mb + ln]
        if not ck.oblige(len(r) == 1, key + ":mapped", "%s: section %s (%d bytes) does not lie inside one live mapping" % (run.why, s, n)):
            return None
        ck.oblige(r[0][2] == PROT[s], key + ":prot", "%s: after loading, section %s has protection %d, expected %d" % (run.why, s, r[0][2], PROT[s]))
        ck.oblige(b % 16 == 0, key + ":align", "%s: section %s is loaded at an address that is %d modulo 16" % (run.why, s, b % 16))
        for o, (ob, on) in seen.items():
            ck.oblige(b + n <= ob or ob + on <= b or not n or not on, key + ":overlap", "%s: section %s overlaps %s" % (run.why, s, o))
        seen[(sh.tag, s)] = (b, n)
        if s == "Bss" and n:
            z = [1 for a, k, v in st.notes.get("writes", ()) if not a[1] and a[0] == b and k >= n and v == ("fill", 0)]
            dirty = [1 for a, k, v in st.notes.get("writes", ()) if not a[1] and a[0] < b + n and b < a[0] + k and v != ("fill", 0)]
            ck.oblige(not dirty and (z or True), key + ":bss", "%s: .bss is not zero after loading" % run.why)
        ck.count("sections placed")
    return base


def decode(run, sh, base, glob, key):
    """every relocation wrote S + A - P (or the address-table entry, or S + A) at its place"""
    ck, st = run.ck, run.st
    ws = st.notes.get("writes", ())
    first = {s: min([i for i, (a, n, v) in enumerate(ws) if v == sh.body[s]] or [0]) for s in base if s != "Bss"}

    def address(sec, pos):
        c, m = lin(pos)
        return (c + base[sec], m)

    local = {n: (sec, n) for n, b, sec in sh.syms if b == "L"}
    for k, (sec, t, ty) in enumerate(sh.relocs):
        n, lo, hi = WIDTH[ty]
        P = address(sec, S("%sr%d.pos" % (sh.pre, k)))
        A = lin(S("%sr%d.addend" % (sh.pre, k), I64))
        hits = [(i, n_, v) for i, (a, n_, v) in enumerate(ws) if a == P and i > run.mark]
        if not ck.oblige(len(hits) == 1 and hits[0][1] == n and hits[0][0] > first[sec], key + ":place", "%s: relocation %s of %s against %s is written %s times with widths %s" % (run.why, ty, sec, t[1], len(hits), [h[1] for h in hits])):
            continue
        v = hits[0][2]
        got = lin(strip_as(v))
        if t[0] == "sec":
            T = (base[t[1]], ())
        elif t[1] in local:
            T = address(sec=local[t[1]][0], pos=sh.pos(t[1]))
        else:
            T = glob[t[1]]
        if ty == "PcRelToAddressTable32":
            # value = E + A - P for an entry E that holds T
            E = minus(plus(got, P), A)
            cell = [x for a, k_, x in ws if a == E and k_ == 8]
            r = run.w.region(st, E, 8)
            ck.oblige(len(cell) == 1 and lin(strip_as(cell[0])) == T, key + ":got", "%s: the address table entry used for %s does not hold its address" % (run.why, t[1]))
            ck.oblige(r is not None and r[2] == R, key + ":gotprot", "%s: the address table is not mapped read-only after loading" % run.why)
            want = minus(plus(E, A), P)
        elif ty == "Abs64":
            want = plus(T, A)
        else:
            want = minus(plus(T, A), P)
        ck.oblige(got == want, key + ":value:" + ty, "%s: relocation %s of %s against %s writes %s, expected %s" % (run.why, ty, sec, t[1], got, want))
        if lo is not None:
            got_b = bounds(st.pc, want)
            ck.oblige(got_b == (lo, hi), key + ":range:" + ty, "%s: relocation %s is accepted for values in %s, the field holds %s" % (run.why, ty, got_b, (lo, hi)))
        ck.count("relocations applied")


def strip_as(v):
    while v[0] == "app" and v[1].startswith("as:"):
        v = v[2][0]
    return v


def plus(a, b, k=1):
    m = dict(a[1])
    for t, c in b[1]:
        m[t] = m.get(t, 0) + k * c
    return a[0] + k * b[0], tuple(sorted(((t, c) for t, c in m.items() if c), key=str))


def minus(a, b):
    return plus(a, b, -1)


def load(run, sh, key, seen, glob):
    """add an object that must be accepted on the in-range partition and refused outside"""
    ck = run.ck
    run.mark = len(run.st.notes.get("writes", ())) - 1
    rs = run.add(sh)
    good = [s for s, v in rs if v == ok(UNIT)]
    badv = [v for s, v in rs if v != ok(UNIT)]
    ck.count("load outcomes", len(rs))
    if not ck.oblige(len(good) == 1 and not run.e.cuts and not run.e.panics, key + ":ok", "%s: loading has %d accepting outcomes, %d panics: %s" % (run.why, len(good), len(run.e.panics), [show(v)[:80] for v in badv][:3])):
        return False
    ranged = sum(1 for _, _, ty in sh.relocs if WIDTH[ty][1] is not None)
    ck.oblige(len(badv) == 2 * ranged and all("OffsetOutOfRange" in show(v) for v in badv), key + ":refused", "%s: %d refusals for %d range-limited relocations: %s" % (run.why, len(badv), ranged, [show(v)[:80] for v in badv if "OffsetOutOfRange" not in show(v)][:3]))
    for s, v in rs:
        for b in s.notes.get("bad", ()):
            ck.oblige(False, key + ":memory", "%s: %s" % (run.why, b))
        for b, (n, p) in s.notes.get("maps", {}).items():
            ck.oblige(not (p & W and p & X), key + ":wx", "%s: a mapping is left writable and executable" % run.why)
    run.st = good[0]
    base = regions(run, sh, seen, key)
    if base is None:
        return False
    for s, v in rs:      # code and constants loaded before or now are protected again even when loading fails
        for (t, sec), (b, n) in seen.items():
            r = [p for mb, (ln, p) in s.notes.get("maps", {}).items() if mb <= b and b + n <= mb + ln]
            ck.oblige(r == [PROT[sec]], key + ":restore", "%s: when loading returns %s, section %s is left with protection %s" % (run.why, show(v)[:40], sec, r))
    for n, b, sec in sh.syms:
        if b == "G" and sec is not None and sec in base:
            c, m = lin(sh.pos(n))
            glob[n] = (c + base[sec], m)
    for n, b, sec in sh.syms:
        if b == "G":
            v = run.get(n)
            want = glob.get(n)
            ck.oblige(v is not None and v[3] == "Some" and run.w.addr(run.e, run.st, v[4][0]) == want, key + ":symbol", "%s: symbol %s is bound to %s, expected %s" % (run.why, n, v and show(v), want))
            ck.count("symbols bound")
        elif n not in glob:
            v = run.get(n)
            ck.oblige(v == NONE, key + ":local", "%s: local symbol %s is visible outside its object" % (run.why, n))
    decode(run, sh, base, glob, key)
    return True


def refused(run, sh, err_name, key):
    rs = run.add(sh)
    run.ck.count("load outcomes", len(rs))
    run.ck.oblige(rs and all(v[0] == "adt" and v[3] == "Err" and err_name in show(v) for _, v in rs) and not run.e.panics, key, "%s: expected %s, got %s" % (run.why, err_name, [show(v)[:80] for _, v in rs]))
    for s, v in rs:
        for b in s.notes.get("bad", ()):
            run.ck.oblige(False, key + ":memory", "%s: %s" % (run.why, b))
        for b, (n, p) in s.notes.get("maps", {}).items():
            run.ck.oblige(not (p & W and p & X) and not (p == R | W and b in getattr(run, "noexec", ())), key + ":wx", "%s: protections after the refusal: %d" % (run.why, p))


def check(ck):
    ck.rule("The JIT engine is interpreted abstractly over sequences of objects (symbols of every binding and section, every relocation type, target and section; bytes, positions and addends symbolic) with the kernel's memory calls modelled by their contracts and destructors followed; every memory write, protection change and returned address is recorded and compared with the relocation formulas S+A-P, G+A-P, S+A.")
    ck.rule("Every mmap/mprotect call is assumed to fail in turn.")
    mir = Mir(["xten"])
    if ENG + "add_object" not in mir.fns:
        ck.violate("anchor", "the JIT engine's add_object is gone")
        return
    big = ck.tier == "thorough"
    all_syms = [("l_" + FIELD[s], "L", s) for s in SECT] + [("g_" + FIELD[s], "G", s) for s in SECT]
    # 1. one relocation of every type, section and target
    n = 0
    for at in SECT[:3]:
        for ty in WIDTH:
            tg = [("sym", x[0]) for x in all_syms] + [("sym", "ext")]
            if ty != "PcRelToAddressTable32":
                tg += [("sec", s) for s in SECT]
            for t in tg:
                run = Run(ck, mir, {"ext": 0x1234 << 44}, why="%s in %s against %s" % (ty, at, t[1]))
                sh = tag(sized(mir, (5, 20, 3, 7), all_syms + [("ext", "G", None)], [(at, t, ty)]), "o1")
                glob = {"ext": (0x1234 << 44, ())}
                load(run, sh, "one", {}, glob)
                n += 1
    # an address-table relocation against a section is refused
    run = Run(ck, mir, why="address table entry for a section")
    refused(run, tag(sized(mir, (5, 0, 0, 0), [], [("Text", ("sec", "Text"), "PcRelToAddressTable32")]), "o1"), "UnsupportedSectionRelocation", "gotsec")
    # 2. sequences of objects: sizes at the page and alignment boundaries
    sizes = (0, 1, 15, 16, 17, 4080, 4081, 4095, 4096, 4097, 8192, 8193)
    seqs = [[(a, b, a, b), (b, a, b, a), (16, 16, 16, 16)] for a, b in itertools.combinations_with_replacement(sizes if big else (0, 1, 16, 4080, 4096, 4097), 2)]
    seqs += [[(4064, 1, 1, 4000), (16, 1, 1, 1), (16, 4096, 16, 0), (17, 1, 1, 1)], [(1, 0, 0, 0)] * 6, [(0, 0, 0, 1)] * 3, [(0, 16, 0, 16)] * 3]
    for q in seqs:
        run = Run(ck, mir, why="objects of sizes %s" % (q,))
        seen, glob = {}, {}
        for i, z in enumerate(q):
            syms = [("g%d_%s" % (i, FIELD[s]), "G", s) for s, k in zip(SECT, z) if k]
            sh = tag(sized(mir, z, syms, []), "o%d" % i)
            if not load(run, sh, "sizes", seen, glob):
                break
        ck.count("object sequences")
    # 3. symbols across objects
    def obj(t, syms, relocs):
        return tag(sized(mir, (5, 20, 3, 7), syms, relocs), t)
    D, U, L = ("f", "G", "Text"), ("f", "G", None), ("f", "L", "Data")
    rel = [("Text", ("sym", "f"), "Abs64"), ("Data", ("sym", "f"), "PcRelToAddressTable32")]
    two = [
        ("a reference to an earlier object's symbol", [D], [U], None),
        ("a reference resolved once outside and used twice", [U], [U], None),
        ("a local symbol hides an earlier global", [D], [L], None),
        ("a global after a local of the same name", [L], [D], None),
        ("two objects with a local of the same name", [L], [L], None),
        ("two definitions of a global", [D], [D], "DuplicateSymbol"),
        ("a definition after an outside resolution", [U], [D], "DuplicateSymbol"),
    ]
    for why, a, b, bad in two:
        run = Run(ck, mir, {"f": 0x1234 << 44}, why=why)
        glob = {"f": (0x1234 << 44, ())} if U in a else {}
        seen = {}
        if not load(run, obj("o1", a, rel), "two", seen, glob):
            continue
        sh = obj("o2", b, rel)
        if bad:
            refused(run, sh, bad, "two:refused")
        else:
            load(run, sh, "two", seen, glob)
        ck.count("object sequences")
    for why, syms, relocs, bad in [
        ("an undefined symbol", [U], rel, "UndefinedSymbol"),
        ("an undefined symbol that nothing uses", [U], [], "UndefinedSymbol"),
        ("a relocation against a symbol missing from the table", [], rel[:1], "UndefinedSymbol"),
        ("an address table relocation against a missing symbol", [], rel[1:], "UndefinedSymbol"),
        ("a local defined twice", [L, L], [], "DuplicateSymbol"),
        ("a global defined twice", [D, D], [], "DuplicateSymbol"),
    ]:
        run = Run(ck, mir, {}, why=why)
        refused(run, obj("o1", syms, relocs), bad, "refused")
    # registered addresses
    run = Run(ck, mir, why="a registered address")
    rs = run.step("register", ("s", "f"), I(0x77 << 44, "usize"))
    ck.oblige([v for _, v in rs] == [ok(UNIT)], "register", "registering an address yields %s" % [show(v) for _, v in rs])
    load(run, obj("o1", [U], rel), "registered", {}, {"f": (0x77 << 44, ())})
    ck.oblige(not run.st.notes.get("resolved"), "register:resolver", "the outside resolver is asked for a registered symbol")
    rs = run.step("register", ("s", "f"), I(0x78 << 44, "usize"))
    ck.oblige(rs and all("DuplicateSymbol" in show(v) for _, v in rs), "register:dup", "registering a bound symbol again yields %s" % [show(v) for _, v in rs])
    # 4. failing system calls
    def failing(k):
        run = Run(ck, mir, {}, k, "system call %s fails" % k)
        glob, seen = {}, {}
        outs = []
        for i in range(2):
            sh = tag(sized(mir, (5, 20, 3, 7), [("g%d" % i, "G", "Text")], [("Text", ("sym", "g%d" % i), "Abs64"), ("Text", ("sym", "g%d" % i), "PcRelToAddressTable32")]), "o%d" % i)
            rs = run.add(sh)
            outs.append([v for _, v in rs])
            acc = [s for s, v in rs if v == ok(UNIT)]
            if acc:
                run.st = acc[0]
            for s, v in rs:
                for b in s.notes.get("bad", ()):
                    ck.oblige(False, "sysfail:memory", "%s: %s" % (run.why, b))
                for b, (n, p) in s.notes.get("maps", {}).items():
                    ck.oblige(not (p & W and p & X), "sysfail:wx", "%s: a mapping is left writable and executable" % run.why)
            if not acc or run.st.notes.get("sys", 0) >= (k or 1 << 30):
                break
        return run, outs
    run, outs = failing(None)
    total = run.st.notes.get("sys", 0)
    for k in range(1, total + 1):
        run, outs = failing(k)
        ck.count("failing system calls")
        ck.oblige(run.e.panics or (outs[-1] and not any(v == ok(UNIT) for v in outs[-1])), "sysfail", "%s of %d: loading still returns %s" % (run.why, total, [show(v)[:60] for v in outs[-1]]))
    # 5. the engine's mappings live exactly as long as the engine
    run = Run(ck, mir, {}, why="dropping the engine")
    seen = {}
    for i, z in enumerate([(5, 20, 3, 7), (4096, 1, 5000, 1)]):
        load(run, tag(sized(mir, z, [("g%d" % i, "G", "Text")], [("Text", ("sym", "g%d" % i), "PcRelToAddressTable32")]), "o%d" % i), "drop", seen, {})
    ck.oblige(not run.st.notes.get("unmapped"), "drop:early", "a mapping is removed while the engine is in use")
    live = sorted(run.st.notes["maps"])
    sts = run.e.drop_value(run.st, run.eng[1], run.eng[2], 0)
    for s in sts:
        ck.oblige(not s.notes["maps"] and sorted(s.notes.get("unmapped", ())) == live and not s.notes.get("bad"), "drop", "dropping the engine leaves %d mappings, %s" % (len(s.notes["maps"]), s.notes.get("bad", ())))
    ck.floor("sections placed", 60)
    ck.floor("relocations applied", 120)
    ck.floor("symbols bound", 200)
    ck.floor("failing system calls", 8)
    ck.floor("object sequences", 20)
