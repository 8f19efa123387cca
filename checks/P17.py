"""The relocatable object file written for an assembled object decodes back to that object."""
import itertools
from facts import Mir
from absint import *
import iomodel
from iomodel import lin
from P16 import SECT, FIELD, OBJ, field_of

LEVEL = "other"
ADP = "xten::elf::adapter::into_relocatable_object"
RT = {"PcRel8": (15,), "PcRel32": (2, 4), "PcRelToAddressTable32": (9, 41), "Abs64": (1,)}
U64, I64 = ("prim", "u64"), ("prim", "i64")


def S(n, t=U64):
    return ("sym", n, t)


class Shape:
    """An object: section contents (symbolic bytes), symbols and relocations (symbolic positions and addends)."""

    def __init__(self, mir, lens, syms, relocs, bss=None):
        self.mir = mir
        self.pre = ""
        self.body = {s: tuple(("sym", "%s[%d]" % (s, k), ("prim", "u8")) for k in range(n)) for s, n in zip(SECT[:3], lens)}
        self.bss = bss if bss is not None else S("bss")
        self.syms = syms          # (name, None | "L"/"G", section or None)
        self.relocs = relocs      # (at section, ("sym", name) | ("sec", section), type)

    def enum(self, adt, name, vals=()):
        vs = self.mir.adts[adt]["variants"]
        i = next(k for k, v in enumerate(vs) if v["n"] == name)
        return ("adt", adt, i, name, tuple(vals))

    def struct(self, adt, **f):
        return ("adt", adt, 0, "", tuple(f[x["n"]] for x in self.mir.adts[adt]["variants"][0]["fields"]))

    def loc(self, sec, pos):
        return self.struct(OBJ + "Location", section=self.enum(OBJ + "LocationSection", sec), pos=pos)

    def pos(self, name):
        return S("at:" + name)

    def value(self):
        syms = []
        for name, b, sec in self.syms:
            l = self.loc(sec, self.pos(name)) if sec else None
            bind = self.enum(OBJ + "Binding", "Local", (l,)) if b == "L" else self.enum(OBJ + "Binding", "Global", (some(l) if l else NONE,))
            syms.append(self.struct(OBJ + "Symbol", name=("s", name), binding=bind))
        rel = []
        for k, (sec, tgt, ty) in enumerate(self.relocs):
            t = self.enum(OBJ + "RelocTarget", "Symbol", (("s", tgt[1]),)) if tgt[0] == "sym" else self.enum(OBJ + "RelocTarget", "Section", (self.enum(OBJ + "LocationSection", tgt[1]),))
            rel.append(self.struct(OBJ + "Reloc", location=self.loc(sec, S("%sr%d.pos" % (self.pre, k))), target=t, addend=S("%sr%d.addend" % (self.pre, k), I64), ty=self.enum(OBJ + "RelocType", ty)))
        return self.struct(OBJ + "Object", text=("arr", self.body["Text"]), data=("arr", self.body["Data"]), rodata=("arr", self.body["Rodata"]),
                           bss=self.bss, symbols=("arr", tuple(syms)), relocs=("arr", tuple(rel)))

    def text(self):
        if len(self.syms) > 40 or len(self.body["Text"]) > 100:
            return "a large object"
        return "sections %s, symbols %s, relocations %s" % ({s: len(b) for s, b in self.body.items()}, [(n, b, s) for n, b, s in self.syms], self.relocs)


class Bad(Exception):
    pass


def num(bs):
    if all(b[0] == "i" for b in bs):
        return int.from_bytes(bytes(b[1] & 0xff for b in bs), "little")
    r = field_of(bs, len(bs))
    if r is None:
        raise Bad("a %d-byte field is not written as one little-endian number: %s" % (len(bs), [show(b) for b in bs][:8]))
    return r


def const(bs, what):
    v = num(bs)
    if not isinstance(v, int):
        raise Bad("%s is not a constant" % what)
    return v


def as_lin(v, bits=64):
    """constant or linear form -> linear form; a constant may be written in two's complement"""
    return (v, ()) if isinstance(v, int) else v


class Elf:
    def __init__(self, bs):
        self.b = bs
        g = lambda o, n: const(bs[o:o + n], "header field at %#x" % o)
        if [x[1] if x[0] == "i" else None for x in bs[:8]] != [0x7f, 0x45, 0x4c, 0x46, 2, 1, 1, 0]:
            raise Bad("identification bytes are %s" % [show(x) for x in bs[:8]])
        hdr = dict(type=g(0x10, 2), machine=g(0x12, 2), version=g(0x14, 4), shoff=g(0x28, 8), phoff=g(0x20, 8), ehsize=g(0x34, 2), phnum=g(0x38, 2), shentsize=g(0x3a, 2), shnum=g(0x3c, 2), shstrndx=g(0x3e, 2))
        self.h = hdr
        for k, w in dict(type=1, machine=62, version=1, ehsize=64, phnum=0, shentsize=64).items():
            if hdr[k] != w:
                raise Bad("header field %s is %d, expected %d" % (k, hdr[k], w))
        if hdr["shoff"] % 8:
            raise Bad("the section header table is not aligned")
        if hdr["shoff"] + 64 * hdr["shnum"] > len(bs):
            raise Bad("the section header table lies outside the file")
        self.s = []
        for i in range(hdr["shnum"]):
            o = hdr["shoff"] + 64 * i
            f = [("name", 4), ("type", 4), ("flags", 8), ("addr", 8), ("offset", 8), ("size", 8), ("link", 4), ("info", 4), ("align", 8), ("entsize", 8)]
            d, p = {}, o
            for n, w in f:
                d[n] = num(bs[p:p + w])
                p += w
            for n, v in d.items():
                if n != "size" and not isinstance(v, int):
                    raise Bad("section header field %s is not a constant" % n)
            self.s.append(d)
        used = [(0, 64, "file header"), (hdr["shoff"], hdr["shoff"] + 64 * hdr["shnum"], "section headers")]
        for i, d in enumerate(self.s):
            if d["type"] not in (0, 8):
                if not isinstance(d["size"], int) or d["offset"] + d["size"] > len(bs):
                    raise Bad("section %d lies outside the file" % i)
                if d["size"]:
                    used.append((d["offset"], d["offset"] + d["size"], "section %d" % i))
        used.sort()
        for a, b in zip(used, used[1:]):
            if a[1] > b[0]:
                raise Bad("%s and %s overlap in the file" % (a[2], b[2]))
        if any(self.s[0][k] for k in ("name", "type", "flags", "link", "info", "size")):
            raise Bad("section 0 is not the null section")
        for d in self.s:
            d["n"] = self.string(hdr["shstrndx"], d["name"])

    def data(self, i):
        d = self.s[i]
        return self.b[d["offset"]:d["offset"] + d["size"]]

    def string(self, sec, off):
        if self.s[sec]["type"] != 3:
            raise Bad("section %d used for strings is not a string table" % sec)
        bs = self.data(sec)
        out = []
        for x in bs[off:]:
            if x[0] != "i":
                raise Bad("a symbolic byte in a string table")
            if x[1] == 0:
                return bytes(out).decode()
            out.append(x[1])
        raise Bad("string at %d is not terminated" % off)


def decode(ck, sh, bs, fname):
    e = Elf(bs)
    by = {}
    for i, d in enumerate(e.s):
        by.setdefault(d["n"], []).append(i)
    idx = {}
    want = {"Text": (".text", 1, 0x6), "Data": (".data", 1, 0x3), "Rodata": (".rodata", 1, 0x2), "Bss": (".bss", 8, 0x3)}
    for s, (n, ty, fl) in want.items():
        if len(by.get(n, ())) != 1:
            raise Bad("%d sections are named %s" % (len(by.get(n, ())), n))
        i = by[n][0]
        idx[s] = i
        d = e.s[i]
        if d["type"] != ty or d["flags"] != fl or d["addr"] != 0:
            raise Bad("section %s has type %d flags %#x" % (n, d["type"], d["flags"]))
        if d["align"] < 16 or d["align"] & (d["align"] - 1):
            raise Bad("section %s is aligned to %d only" % (n, d["align"]))
        if s != "Bss":
            if tuple(e.data(i)) != sh.body[s]:
                raise Bad("section %s does not hold the bytes assembled for it" % n)
        elif as_lin(d["size"]) != lin(sh.bss):
            raise Bad("the size of .bss is %s, not the object's" % (d["size"],))
    sts = [i for i, d in enumerate(e.s) if d["type"] == 2]
    if len(sts) != 1:
        raise Bad("%d symbol tables" % len(sts))
    st = sts[0]
    d = e.s[st]
    if d["entsize"] != 24 or d["size"] % 24:
        raise Bad("symbol table entry size %d, size %s" % (d["entsize"], d["size"]))
    raw = e.data(st)
    syms = []
    for k in range(d["size"] // 24):
        x = raw[24 * k:24 * k + 24]
        syms.append(dict(name=e.string(d["link"], const(x[0:4], "symbol name")), info=const(x[4:5], "symbol info"), other=const(x[5:6], "symbol visibility"), shndx=const(x[6:8], "symbol section"), value=as_lin(num(x[8:16])), size=num(x[16:24])))
    z = syms[0]
    if z["name"] or z["info"] or z["shndx"] or z["value"] != (0, ()):
        raise Bad("symbol 0 is not the undefined symbol")
    for k, y in enumerate(syms):
        if (y["info"] >> 4 == 0) != (k < d["info"]):
            raise Bad("symbol %d (%s) has binding %d but the first non-local symbol is recorded as %d" % (k, y["name"], y["info"] >> 4, d["info"]))
        if y["info"] >> 4 not in (0, 1) or y["other"]:
            raise Bad("symbol %s has binding %d visibility %d" % (y["name"], y["info"] >> 4, y["other"]))
    names = {}
    for k, y in enumerate(syms[1:], 1):
        ty = y["info"] & 15
        if ty == 3:
            if y["shndx"] not in idx.values() or y["value"] != (0, ()):
                raise Bad("a section symbol names section %d value %s" % (y["shndx"], y["value"]))
            continue
        if ty == 4:
            if y["shndx"] != 0xfff1 or y["info"] >> 4:
                raise Bad("the file symbol is in section %#x" % y["shndx"])
            continue
        if y["name"] in names:
            raise Bad("symbol %s appears twice" % y["name"])
        names[y["name"]] = k
    if set(names) != {n for n, _, _ in sh.syms}:
        raise Bad("symbols in the file: %s, in the object: %s" % (sorted(names), sorted(n for n, _, _ in sh.syms)))
    for n, b, sec in sh.syms:
        y = syms[names[n]]
        if y["info"] & 15 not in (0, 1, 2):
            raise Bad("symbol %s has type %d" % (n, y["info"] & 15))
        if (y["info"] >> 4) != (0 if b == "L" else 1):
            raise Bad("symbol %s is %s in the file" % (n, "global" if y["info"] >> 4 else "local"))
        if sec is None:
            if y["shndx"] != 0 or y["value"] != (0, ()):
                raise Bad("undefined symbol %s is in section %d" % (n, y["shndx"]))
        elif y["shndx"] != idx[sec] or y["value"] != lin(sh.pos(n)):
            raise Bad("symbol %s is at section %d value %s, expected .%s" % (n, y["shndx"], y["value"], FIELD[sec]))
        ck.count("symbols decoded")
    got = []
    for i, d in enumerate(e.s):
        if d["type"] != 4:
            continue
        tgt = [s for s, k in idx.items() if k == d["info"]]
        if d["entsize"] != 24 or d["size"] % 24 or d["link"] != st or not tgt:
            raise Bad("relocation section %s: entry size %d, size %s, symbol table %d, target %d" % (d["n"], d["entsize"], d["size"], d["link"], d["info"]))
        raw = e.data(i)
        for k in range(d["size"] // 24):
            x = raw[24 * k:24 * k + 24]
            info = const(x[8:16], "relocation info")
            si = info >> 32
            if si >= len(syms):
                raise Bad("a relocation names symbol %d of %d" % (si, len(syms)))
            y = syms[si]
            t = ("sec", [s for s, n in idx.items() if n == y["shndx"]][0]) if y["info"] & 15 == 3 else ("sym", y["name"])
            got.append((tgt[0], as_lin(num(x[0:8])), t, info & 0xffffffff, as_lin(num(x[16:24]))))
    for k, (sec, t, ty) in enumerate(sh.relocs):
        m = [g for g in got if g[0] == sec and g[1] == lin(S("r%d.pos" % k))]
        if len(m) != 1:
            raise Bad("%d relocations in the file for relocation %d of the object" % (len(m), k))
        if m[0][2] != t or m[0][3] not in RT[ty] or m[0][4] != lin(S("r%d.addend" % k, I64)):
            raise Bad("relocation %s against %s is written as type %d against %s addend %s" % (ty, t, m[0][3], m[0][2], m[0][4]))
        ck.count("relocations decoded")
    if len(got) != len(sh.relocs):
        raise Bad("%d relocations written for %d in the object" % (len(got), len(sh.relocs)))


def shapes(mir, thorough):
    types = list(RT)
    # every section x binding, referenced by every relocation type from every section
    syms = [("l_" + FIELD[s], "L", s) for s in SECT] + [("g_" + FIELD[s], "G", s) for s in SECT] + [("ext", "G", None), ("ex", "G", None)]
    rel = []
    for n, b, s in syms:
        for ty in types:
            rel.append(("Text", ("sym", n), ty))
    for s in SECT:
        for ty in types:
            rel.append(("Data", ("sec", s), ty))
    for s in SECT[:3]:
        rel.append((s, ("sec", "Rodata"), "Abs64"))
        rel.append((s, ("sym", "ext"), "Abs64"))
    yield Shape(mir, (3, 5, 2), syms, rel)
    yield Shape(mir, (3, 5, 2), syms[::-1], rel[::-1])
    # order of definition: locals after globals, names that are prefixes, suffixes or equal to section and file names
    odd = ["a", "ab", "b", ".text", ".L0", "o.o", ".symtab", "x" * 40, "é"]
    yield Shape(mir, (1, 0, 0), [(n, "G" if k % 2 == 0 else "L", SECT[k % 4] if k % 3 else ("Text" if k % 2 else None)) for k, n in enumerate(odd)], [("Text", ("sym", n), "PcRel32") for n in odd])
    yield Shape(mir, (0, 0, 0), [], [])
    yield Shape(mir, (0, 0, 0), [("only", "L", "Bss")], [], I(0, "u64"))
    yield Shape(mir, (0, 0, 0), [("only", "G", "Bss")], [], I(24, "u64"))
    # sizes and indices beyond one and two bytes
    many = [("s%d" % k, "LG"[k % 2], SECT[k % 4]) for k in range(300)]
    yield Shape(mir, (1, 1, 1), many, [("Text", ("sym", n), "PcRel32") for n, _, _ in many])
    yield Shape(mir, (70000, 300, 1), [("y" * 66000, "G", "Text"), ("z", "L", "Data"), ("w", "G", None)], [("Text", ("sym", "w"), "PcRel32"), ("Text", ("sym", "z"), "PcRel32"), ("Data", ("sym", "y" * 66000), "Abs64")])
    # every length modulo the alignments that matter
    for n in range(17 if thorough else 9):
        yield Shape(mir, (n, 0, 0), [("f", "G", "Text")], [])
        yield Shape(mir, (0, n, 1), [("f", "L", "Rodata")], [("Data", ("sym", "f"), "Abs64")])
    for a, b, c in itertools.product((0, 1, 6), repeat=3):
        yield Shape(mir, (a, b, c), [("f", "G", None), ("g", "L", "Data")], [("Rodata", ("sym", "f"), "Abs64"), ("Text", ("sym", "g"), "PcRel32")])


WRITE = "xten::elf::adapter::write_relocatable_object"


def file_hooks(fail):
    """models of the file system: the file is a recorded byte sequence; `fail` names the operation that fails, if any"""

    def hooks(e, st, c):
        d = strip_generics(c.d)
        if d == "std::path::Path::file_name" or d.endswith("OsStr::to_str"):
            return [(st, some(("s", "o.o")))]
        if d in ("std::fs::File::create", "std::fs::OpenOptions::open"):
            st.notes["created"] = e.snap(st, e.through(st, c.args[-1]))
            if fail == "create":
                return [(st, err(("sym", "io-error", ("?",))))]
            st.notes["w"] = w = e.new_cell(st, iomodel.cursor())
            return [(st, ok(w))]
        if c.m in ("flush", "into_inner", "sync_all") and ("BufWriter" in show(e.snap(st, c.args[0])) or d == "std::io::Write::flush"):
            if fail == "flush":
                return [(st, err(("sym", "io-error", ("?",))))]
            st.notes["flushed"] = st.notes.get("writes", 0)
            return [(st, ok(UNIT))]
        if d.endswith("BufWriter::new") or d.endswith("BufWriter::with_capacity"):
            st.notes["buffered"] = True
        if d in ("std::io::Write::write_all", "std::io::Write::write") or "WriteBytesExt::write_" in d:
            x = e.snap(st, e.through(st, c.args[0]))
            if x[0] != "adt" or x[1] not in (iomodel.CUR, "std::io::BufWriter"):
                return iomodel.hooks(e, st, c)     # memory, not the file
            n = st.notes["writes"] = st.notes.get("writes", 0) + 1
            if fail == n:
                return [(st, err(("sym", "io-error", ("?",))))]
        return iomodel.hooks(e, st, c)
    return hooks


def produce(mir, sh, fail=None):
    e = Engine(mir, file_hooks(fail), max_visits=100000)
    rs = e.call_fn(State(), WRITE, [("sym", "path", ("ref", 0, ("adt", "std::path::Path", ()))), sh.value()])
    return e, rs


def check(ck):
    ck.rule("The object-file writer is interpreted abstractly over objects of every shape class (symbols of every section and binding, every relocation type, target and section; section bytes, positions, sizes and addends symbolic); the bytes it produces are decoded by the ELF rules and must denote exactly that object.")
    ck.rule("Every single write, the creation and the final flush of the file is assumed to fail in turn; each must be reported, and success requires that nothing is left in a buffer.")
    mir = Mir(["xten"])
    f = mir.fns.get(WRITE)
    if f is None:
        ck.violate("anchor", "the object-file writer %s is gone" % WRITE)
        return
    for sh in shapes(mir, ck.tier == "thorough"):
        ck.count("object shapes")
        e, rs = produce(mir, sh)
        if not ck.oblige(len(rs) == 1 and not e.panics and not e.cuts, "convert", "writing the object file does not simply return: %d results, %d panics (%s)" % (len(rs), len(e.panics), sh.text())):
            continue
        s, v = rs[0]
        v = e.snap(s, v)
        if not ck.oblige(v == ok(UNIT) and "w" in s.notes, "write", "writing the object file yields %s (%s)" % (show(v)[:100], sh.text())):
            continue
        ck.oblige(not s.notes.get("buffered") or s.notes.get("flushed") == s.notes["writes"], "flush", "success is returned while output may still be buffered, so that a failure to write it is lost")
        ck.oblige("path" in show(s.notes["created"]), "file", "the object is written to %s, not the requested file" % show(s.notes["created"]))
        bs = e.snap(s, e.through(s, s.notes["w"]))[4][0][1]
        try:
            decode(ck, sh, list(bs), "o.o")
            ck.oblige(True, "", "")
        except Bad as x:
            ck.oblige(False, "decode", "%s [%s]" % (x, sh.text()))
            return
    # a relocation inside .bss cannot be represented and is refused
    sh = Shape(mir, (0, 0, 0), [("f", "G", None)], [("Bss", ("sym", "f"), "Abs64")])
    e, rs = produce(mir, sh)
    ck.oblige(all(e.snap(s, v) != ok(UNIT) for s, v in rs), "bss", "a relocation inside .bss is accepted")
    # every write to the file may fail, and its failure is reported
    sh = Shape(mir, (1, 1, 1), [("f", "G", "Text"), ("g", "L", "Data"), ("h", "G", None)], [("Text", ("sym", "h"), "PcRel32"), ("Data", ("sym", "g"), "Abs64"), ("Rodata", ("sec", "Text"), "Abs64")])
    e, rs = produce(mir, sh)
    n = rs[0][0].notes.get("writes", 0) if rs else 0
    fl = ["flush"] if rs and "flushed" in rs[0][0].notes else []
    for k in ["create"] + fl + list(range(1, n + 1)):
        e, rs = produce(mir, sh, k)
        ck.count("failing writes")
        ck.oblige(rs and all("io-error" in show(e.snap(s, v)) for s, v in rs) and not e.panics, "io-error:" + ("write" if isinstance(k, int) else k),
                  "the failure of %s is not reported: %s" % ("write %d of %d" % (k, n) if isinstance(k, int) else k, [show(e.snap(s, v))[:80] for s, v in rs]))
    ck.floor("object shapes", 40)
    ck.floor("symbols decoded", 60)
    ck.floor("relocations decoded", 120)
    ck.floor("failing writes", 40)
