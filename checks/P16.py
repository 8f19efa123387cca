"""Label references: displacement fields, PC bias, relocation kind, section bookkeeping, object production."""
from facts import Mir, tstr
from absint import *
import x86spec, iomodel
from iomodel import lin
from P15 import R64, XMM, regval, OPD
import P15

LEVEL = "other"
WM = "xten::asm::writer::"
OBJ = "xten::asm::obj::"
SECT = ("Text", "Data", "Rodata", "Bss")
FIELD = {"Text": "text", "Data": "data", "Rodata": "rodata", "Bss": "bss"}


def hooks(e, st, c):
    h = iomodel.hooks(e, st, c)
    return h if h is not None else P15.hooks(e, st, c)


class W:
    """A symbolic Writer value: section cursors at unknown positions, unknown label tables."""

    def __init__(self, mir):
        self.mir = mir
        self.adt = mir.adts[WM + "Writer"]
        self.names = [f["n"] for f in self.adt["variants"][0]["fields"]]
        self.types = {f["n"]: mir.ty(self.adt["crate"], f["t"]) for f in self.adt["variants"][0]["fields"]}

    def value(self, **over):
        fs = []
        for n in self.names:
            t = self.types[n]
            if n in over:
                fs.append(over[n])
            elif t[0] == "adt" and t[1].endswith("Cursor"):
                fs.append(iomodel.cursor(("sym", "P." + n, ("prim", "u64"))))
            elif n == "uses":
                fs.append(("arr", ()))
            else:
                fs.append(("sym", "w." + n, t))
        return ("adt", WM + "Writer", 0, "", tuple(fs))

    def get(self, v, n):
        return v[4][self.names.index(n)]


def assemble(tpl, ops, riprel):
    """bytes of a reference template with concrete register operands {index: (class, number)}, RIP+0 memory -> (bytes, [offset of rel/disp field, size])"""
    pref, rex, op, tail = tpl
    out = list(pref)
    reg = 0
    ext = 0
    for a in tail:
        if a[0] == "modrm":
            reg = a[1][1] if a[1][0] == "digit" else ops[a[1][1]][1]
            if reg >= 8:
                ext = 4
    if rex is not None:
        b = 0x40 | (8 if rex[1] else 0) | ext
        if b != 0x40 or rex[0] == "fixed":
            out.append(b)
    out += list(op)
    field = None
    for a in tail:
        if a[0] == "modrm":
            out.append(0 << 6 | (reg & 7) << 3 | 5)
        elif a[0] == "disp":
            field = (len(out), 4)
            out += [0] * 4
        elif a[0] == "imm":
            if a[1] in riprel:
                field = (len(out), a[2])
                out += [0] * a[2]
            else:
                out += [("imm", a[1], k) for k in range(a[2])]
    return out, field


def label_forms(ck, mir, table):
    w = W(mir)
    from P14 import struct_key
    seen = set()
    for im in mir.impl_by_trait.get("xten::asm::inst::WriteInst", ()):
        name = im["selfty"][1].split("::")[-1]
        ops = tuple(tstr(t) for t in im["selfty"][2])
        if not any("Label" in o for o in ops):
            continue
        ck.count("label instruction forms")
        mn = name[0].lower() + name[1:]
        seen.add((mn, ops))
        key = "%s<%s>" % (mn, ",".join(ops))
        where = "%s:%d %s<%s>" % (im["file"], im["line"], name, ", ".join(ops))
        path = [it["p"] for it in im["items"] if it["n"] == "write_inst"][0]
        jump = mn.startswith("j") or mn.startswith("call")
        cls, kind, li = [], None, None
        for i, o in enumerate(ops):
            if "Label" not in o:
                cls.append(o)
                continue
            li = i
            if o == "Label":
                cls.append("i32" if jump else "Memory")
                kind = "PcRel32"
            elif o == "Short<Label>":
                cls.append("i8")
                kind = "PcRel8"
            else:
                cls.append("Memory")
                kind = "PcRelToAddressTable32"
        k = struct_key(table, name, tuple(cls))
        if not ck.oblige(k is not None, "form:" + key, "%s: label form has no counterpart %s in the reference table" % (where, cls)):
            continue
        others = [(i, o) for i, o in enumerate(ops) if i != li]
        regs = [None]
        if others and others[0][1] in ("Gpr64", "Xmm"):
            regs = R64 if others[0][1] == "Gpr64" else XMM
        for r in regs:
            ck.count("label form instances")
            vals, conc = [None] * len(ops), {}
            for i, o in others:
                if r is not None:
                    vals[i] = regval(o, r, mir)
                    conc[i] = (o, regs.index(r))
                else:
                    vals[i] = ("sym", "op%d" % i, ("prim", o))
            lab = ("adt", WM + "Label", 0, "", (("sym", "L", ("prim", "usize")),))
            lv = lab
            if ops[li].startswith("Short"):
                lv = ("adt", WM + "Short", 0, "", (lab,))
            if ops[li].startswith("AddressTable"):
                lv = ("adt", WM + "AddressTable", 0, "", (lab,))
            vals[li] = lv
            e = Engine(mir, hooks)
            st = State()
            wr = e.new_cell(st, w.value())
            me = e.new_cell(st, ("adt", im["selfty"][1], 0, "", tuple(vals)))
            rs = e.call_fn(st, path, [me, wr], (("adt", WM + "Writer", ()),) )
            ck.count("paths", len(rs))
            good = [(s, v) for s, v in rs if v[0] == "adt" and v[3] == "Ok"]
            if not ck.oblige(len(good) == 1 and len(rs) == 1 and not e.cuts, "paths:" + key, "%s: expected one normal path, found %d (%s)" % (where, len(rs), [show(v) for _, v in rs])):
                continue
            s = good[0][0]
            fin = e.snap(s, wr)
            bs = w.get(fin, "text")[4][0][1]
            uses = w.get(fin, "uses")
            cands = [assemble(t, conc, {li}) for t in table[k]]
            got = []
            for b in bs:
                if b[0] == "i":
                    got.append(b[1])
                elif b[0] == "app" and b[1].startswith("byte") and b[2][0][0] == "sym" and b[2][0][1].startswith("op"):
                    got.append(("imm", int(b[2][0][1][2:]), int(b[1][4:])))
                else:
                    got.append(show(b))
            hit = [c for c in cands if c[0] == got]
            nm = "%s%s" % (key, "[%s]" % r if r else "")
            if not ck.oblige(bool(hit), "bytes:" + key, "%s %s: emits %s, reference encoding is %s" % (where, r or "", got, [c[0] for c in cands])):
                continue
            off, size = hit[0][1]
            total = len(got)
            if not ck.oblige(uses[0] == "arr" and len(uses[1]) == 1, "use:" + key, "%s: records %s instead of exactly one label use" % (where, show(uses))):
                continue
            u = uses[1][0]
            f = {x["n"]: u[4][i] for i, x in enumerate(mir.adts[WM + "Use"]["variants"][0]["fields"])}
            loc = {x["n"]: f["location"][4][i] for i, x in enumerate(mir.adts[OBJ + "Location"]["variants"][0]["fields"])} if f["location"][0] == "adt" else {}
            pos = lin(loc["pos"]) if loc else None
            P = ("sym", "P.text", ("prim", "u64"))
            ck.oblige(loc and loc["section"][3] == "Text" and pos == (off, ((P, 1),)), "field:" + key,
                      "%s: the relocated field is at %s, the encoded displacement is %d bytes after the start of the instruction" % (where, show(f["location"]), off))
            ck.oblige(f["target"] == lab, "target:" + key, "%s: uses %s, not the given label" % (where, show(f["target"])))
            ck.oblige(f["addend"] == ("i", off - total, "i64"), "bias:" + key,
                      "%s: addend is %s; the field is %d bytes before the next instruction, so it must be %d" % (where, show(f["addend"]), total - off, off - total))
            ck.oblige(f["ty"][0] == "adt" and f["ty"][3] == kind, "kind:" + key, "%s: relocation type %s, wanted %s" % (where, show(f["ty"]), kind))
    need = {("callq", ("Label",)), ("callq", ("AddressTable<Label>",)), ("jmpq", ("Label",)), ("jmpq", ("AddressTable<Label>",)), ("jmpq", ("Short<Label>",)),
            ("movq", ("Label", "Gpr64")), ("movq", ("Label", "Xmm")), ("movq", ("Label", "i32")), ("movq", ("Gpr64", "Label")), ("movq", ("Xmm", "Label")),
            ("movq", ("Gpr64", "AddressTable<Label>")), ("movq", ("Xmm", "AddressTable<Label>")), ("leaq", ("Gpr64", "Label"))}
    for m in {m for m, o in table if m.startswith("j") and o == ("i8",) and (m, ("i32",)) in table and m != "jmpq"}:
        need |= {(m, ("Label",)), (m, ("Short<Label>",))}
    for n in need:
        ck.oblige(n in seen, "missing:%s<%s>" % (n[0], ",".join(n[1])), "no label form of %s %s" % n)
    ck.floor("label instruction forms", 70)


def core(ck, mir):
    w = W(mir)
    LW = ("adt", WM + "Writer", ())
    usz, u64, i64 = ("prim", "usize"), ("prim", "u64"), ("prim", "i64")

    def lab(n="L"):
        return ("adt", WM + "Label", 0, "", (("sym", n, usz),))

    def run(path, args, targs=(), via=None):
        e = Engine(mir, hooks)
        st = State()
        args = [e.new_cell(st, a[1]) if a[0] == "&" else a for a in args]
        if via:
            rs = e.call_path(st, via[0] + "::" + via[1], via[2], args, ("?",), 0, tr=via[0], m=via[1])
        else:
            if path not in mir.fns:
                return e, [], args
            rs = e.call_fn(st, path, args, targs)
        return e, rs, args

    # issue_label / get_label
    e, rs, a = run(WM + "Writer::issue_label", [("&", w.value())])
    okk = len(rs) == 1
    if okk:
        s, v = rs[0]
        d = w.get(e.snap(s, a[0]), "defs")
        w0 = w.value()
        okk = v == ("adt", WM + "Label", 0, "", (("app", "len", (w.get(w0, "defs"),), usz),)) and d == ("app", "push", (w.get(w0, "defs"), NONE), d[3])
    ck.oblige(okk, "issue_label", "Writer::issue_label must return the next index and add an undefined entry: %s" % [show(v) for _, v in rs])
    e, rs, a = run(WM + "Writer::get_label", [("&", w.value()), ("&", ("sym", "name", ("prim", "str")))])
    kinds = set()
    for s, v in rs:
        fin = e.snap(s, a[0])
        nm = w.get(fin, "names")
        hit = [x for t, x in s.pc.items() if t[0] == "app" and t[1] == "has_key"]
        if hit and hit[0] == ("=", 1):
            kinds.add("hit" if v[0] == "app" and v[1] == "mapval" and v[2] == (("sym", "w.names", w.types["names"]), ("sym", "name", ("prim", "str"))) and nm == ("sym", "w.names", w.types["names"]) else "bad:" + show(v))
        else:
            good = v == ("adt", WM + "Label", 0, "", (("app", "len", (("sym", "w.defs", w.types["defs"]),), usz),)) and nm[0] == "map" and len(nm[2]) == 1 and nm[2][0][1] == v and show(nm[2][0][0]) in ("name", "to_string(name)")
            kinds.add("miss" if good else "bad:" + show(v) + show(nm))
    ck.oblige(kinds == {"hit", "miss"}, "get_label", "Writer::get_label must return the label bound to the name, or bind a fresh one: %s" % sorted(kinds))
    ck.count("writer operations", 2)

    # sections: position, contents, definitions, uses
    impls = mir.impl_by_trait.get(WM + "SectionWrite", ())
    tr = WM + "SectionWrite"
    byname = {}
    for im in impls:
        byname[im["selfty"][1].split("::")[-1]] = im
    sect_of = {"Writer": "Text", "TextWriter": "Text", "DataWriter": "Data", "RodataWriter": "Rodata", "BssWriter": "Bss"}
    ck.oblige(set(byname) == set(sect_of), "sections", "section writers are %s" % sorted(byname))
    loc_fields = [f["n"] for f in mir.adts[OBJ + "Location"]["variants"][0]["fields"]]
    def locparts(v):
        if v[0] != "adt" or v[1] != OBJ + "Location":
            return None
        d = dict(zip(loc_fields, v[4]))
        return d["section"][3] if d["section"][0] == "adt" else None, lin(d["pos"])
    P = {s: ("sym", ("P." if s != "Bss" else "w.") + FIELD[s], u64) for s in SECT}
    acc = {"TextWriter": "text", "DataWriter": "data", "RodataWriter": "rodata", "BssWriter": "bss"}
    for n, sec in sect_of.items():
        if n not in byname:
            continue
        T = byname[n]["selfty"]
        ck.count("section writers")

        def recv(e, st):
            wr = e.new_cell(st, w.value())
            if n == "Writer":
                return wr, wr
            rs = e.call_fn(st, WM + "Writer::" + acc[n], [wr])
            assert len(rs) == 1
            return wr, e.new_cell(st, rs[0][1])

        def go(m, args, extra=()):
            e = Engine(mir, hooks)
            st = State()
            wr, me = recv(e, st)
            rs = e.call_path(st, tr + "::" + m, (T,) + extra, [me] + args, ("?",), 0, tr=tr, m=m)
            return e, wr, rs

        e, wr, rs = go("location", [])
        ck.oblige(len(rs) == 1 and locparts(rs[0][1]) == (sec, (0, ((P[sec], 1),))), "location:" + n, "%s::location is %s, wanted the current end of .%s" % (n, [show(v) for _, v in rs], FIELD[sec]))
        # define
        glob = ("sym", "is_global", ("prim", "bool"))
        e, wr, rs = go("define", [lab(), glob])
        fin = [(s, v) for s, v in rs]
        good = len(fin) >= 1 and bool(e.panics)
        for s, v in fin:
            d = w.get(e.snap(s, wr), "defs")
            if not (d[0] == "app" and d[1] == "upd[]" and d[2][1] == ("sym", "L", usz)):
                good = False
                continue
            x = d[2][2]
            if not (x[0] == "adt" and x[3] == "Some"):
                good = False
                continue
            df = dict(zip([f["n"] for f in mir.adts[WM + "Def"]["variants"][0]["fields"]], x[4][0][4]))
            good = good and df["is_global"] == glob and locparts(df["location"]) == (sec, (0, ((P[sec], 1),))) and locparts(v) == locparts(df["location"])
        ck.oblige(good, "define:" + n, "%s::define must refuse a second definition and record the current position of .%s with the given visibility: %s" % (n, FIELD[sec], [(show(v), show(w.get(e.snap(s, wr), "defs"))) for s, v in fin]))
        # use_relative
        if n != "BssWriter":
            off, add = ("sym", "off", i64), ("sym", "addend", i64)
            ty = ("sym", "ty", ("adt", OBJ + "RelocType", ()))
            e, wr, rs = go("use_relative", [off, lab(), add, ty])
            good = len(rs) == 1
            if good:
                us = w.get(e.snap(rs[0][0], wr), "uses")
                good = us[0] == "arr" and len(us[1]) == 1
                if good:
                    uf = dict(zip([f["n"] for f in mir.adts[WM + "Use"]["variants"][0]["fields"]], us[1][0][4]))
                    good = locparts(uf["location"]) == (sec, (0, tuple(sorted(((P[sec], 1), (off, 1)), key=str)))) and uf["target"] == lab() and uf["addend"] == add and uf["ty"] == ty
            ck.oblige(good, "use_relative:" + n, "%s::use_relative does not record (current position + offset, label, addend, type)" % n)
            # write
            e = Engine(mir, hooks)
            st = State()
            wr, me = recv(e, st)
            rs = e.call_path(st, "std::io::Write::write", (T,), [me, e.new_cell(st, ("sym", "buf", ("slice", ("prim", "u8"))))], ("?",), 0, tr="std::io::Write", m="write")
            good = len(rs) == 1
            if good:
                fin = e.snap(rs[0][0], wr)
                for s2 in SECT[:3]:
                    b = w.get(fin, FIELD[s2])[4][0][1]
                    good = good and (b == (("app", "splice", (("sym", "buf", ("slice", ("prim", "u8"))),), ("?",)),) if s2 == sec else b == ())
            ck.oblige(good, "write:" + n, "%s::write must append to .%s only" % (n, FIELD[sec]))
        # allocate
        for size in (0, 1, 7):
            e, wr, rs = go("allocate", [("i", size, "u64")])
            good = len(rs) == 1 and rs[0][1] == ok(UNIT)
            if good:
                fin = e.snap(rs[0][0], wr)
                for s2 in SECT[:3]:
                    b = w.get(fin, FIELD[s2])[4][0][1]
                    fill = ("i", 0x90 if sec == "Text" else 0, "u8")
                    good = good and b == ((fill,) * size if s2 == sec else ())
                good = good and lin(w.get(fin, "bss")) == (size if sec == "Bss" else 0, ((P["Bss"], 1),))
            ck.oblige(good, "allocate:" + n, "%s::allocate(%d) must extend .%s by that many filler bytes and nothing else" % (n, size, FIELD[sec]))
        # align: for every position p and alignment a the section grows by (a - p %% a) %% a
        for pos, al in ((0, 8), (1, 8), (7, 8), (8, 8), (9, 16), (5, 1), (15, 4)):
            e = Engine(mir, hooks)
            st = State()
            fs = {}
            fs[FIELD[sec]] = iomodel.cursor(("i", pos, "u64")) if sec != "Bss" else ("i", pos, "u64")
            wr = e.new_cell(st, w.value(**fs))
            me = wr
            if n != "Writer":
                me = e.new_cell(st, e.call_fn(st, WM + "Writer::" + acc[n], [wr])[0][1])
            rs = e.call_path(st, tr + "::align", (T,), [me, ("i", al, "u64")], ("?",), 0, tr=tr, m="align")
            good = len(rs) == 1
            if good:
                rs2 = e.call_path(rs[0][0], tr + "::location", (T,), [me], ("?",), 0, tr=tr, m="location")
                good = len(rs2) == 1 and locparts(rs2[0][1]) == (sec, (-(-pos // al) * al, ()))
            ck.oblige(good, "align:" + n, "%s::align(%d) at %d does not end at the next multiple" % (n, al, pos))
    ck.floor("section writers", 5)

    # static resolution: S + A - P, written at P in the field's width, range-checked
    TY = mir.adts[OBJ + "RelocType"]["variants"]
    S, A, U = ("sym", "S", u64), ("sym", "A", i64), ("sym", "U", u64)
    want_val = (0, tuple(sorted(((S, 1), (A, 1), (U, -1)), key=str)))
    for i, v in enumerate(TY):
        ck.count("relocation types")
        nm = v["n"]
        e = Engine(mir, hooks)
        st = State()
        buf = e.new_cell(st, iomodel.cursor(("sym", "end", u64)))
        rs = e.call_fn(st, OBJ + "RelocType::resolve_statically", [("adt", OBJ + "RelocType", i, nm, ()), buf, S, U, A], (("adt", "std::io::Cursor", ()),))
        width = {"PcRel8": ("i8", 1), "PcRel32": ("i32", 4)}.get(nm)
        if width is None:
            good = len(rs) == 1 and rs[0][1] == ok(B(False)) and e.snap(rs[0][0], buf) == iomodel.cursor(("sym", "end", u64)) and not e.panics
            ck.oblige(good, "static:" + nm, "%s must not be resolved before load time: %s" % (nm, [show(x) for _, x in rs]))
            continue
        ty, n = width
        lo, hi = -(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1
        fine = [(s, x) for s, x in rs if x == ok(B(True))]
        good = bool(fine) and len(fine) == len(rs)
        for s, x in fine:
            cur = e.snap(s, buf)
            ps = cur[4][3][1]
            good = good and len(ps) == 1 and cur[4][0] == ("arr", ())
            if good:
                pos, bs = ps[0][1]
                good = lin(pos) == (0, ((U, 1),)) and field_of(bs[1], n) == want_val
                good = good and bounds(s.pc, want_val) == (lo, hi)
        ck.oblige(good and bool(e.panics), "static:" + nm, "%s: static resolution must write the low %d byte(s) of S+A-P at P after checking %d..%d: %s" % (nm, n, lo, hi, [(show(x), [(show(t), b) for t, b in s.pc.items()]) for s, x in rs]))
    ck.floor("relocation types", 4)
    produce(ck, mir, w, locparts, lab)


def field_of(bs, n):
    """the integer whose low n little-endian bytes bs are, as a linear form"""
    if len(bs) != n:
        return None
    r = None
    for k, b in enumerate(bs):
        if n == 1 and not (b[0] == "app" and b[1] == "byte0"):
            v = b
        elif b[0] == "app" and b[1] == "byte%d" % k:
            v = b[2][0]
        else:
            return None
        while v[0] == "app" and v[1].startswith("as:") and BITS.get(v[1][3:], 0) >= 8 * n:
            v = v[2][0]
        if r is not None and r != v:
            return None
        r = v
    return lin(r)


def bounds(pc, val):
    """(lo, hi) implied for the linear value val by the path condition"""
    lo = hi = None
    for t, b in pc.items():
        if t[0] != "app" or t[1] not in ("Le", "Lt", "Ge", "Gt") or b[0] != "=":
            continue
        x, y = lin(t[2][0]), lin(t[2][1])
        op = t[1]
        if not b[1]:
            op = {"Le": "Gt", "Lt": "Ge", "Ge": "Lt", "Gt": "Le"}[op]
        # x op y  with x - y = c + k*val
        def put(side, k):
            nonlocal lo, hi
            if side == "hi":
                hi = k if hi is None else min(hi, k)
            else:
                lo = k if lo is None else max(lo, k)
        if not x[1] and y[1] == val[1]:       # c op val
            k = x[0] - y[0] + val[0]
            op = {"Le": "Ge", "Lt": "Gt", "Ge": "Le", "Gt": "Lt"}[op]
        elif not y[1] and x[1] == val[1]:
            k = y[0] - x[0] + val[0]
        else:
            continue
        if op == "Le": put("hi", k)
        if op == "Lt": put("hi", k - 1)
        if op == "Ge": put("lo", k)
        if op == "Gt": put("lo", k + 1)
    return lo, hi


def produce(ck, mir, w, locparts, lab):
    """One generic use x every definition state x naming x relocation type."""
    u64, i64, usz = ("prim", "u64"), ("prim", "i64"), ("prim", "usize")
    Lf = [f["n"] for f in mir.adts[OBJ + "Location"]["variants"][0]["fields"]]
    SV = [v["n"] for v in mir.adts[OBJ + "LocationSection"]["variants"]]
    TV = [v["n"] for v in mir.adts[OBJ + "RelocType"]["variants"]]
    UF = [f["n"] for f in mir.adts[WM + "Use"]["variants"][0]["fields"]]
    DF = [f["n"] for f in mir.adts[WM + "Def"]["variants"][0]["fields"]]
    OF = [f["n"] for f in mir.adts[OBJ + "Object"]["variants"][0]["fields"]]
    RF = [f["n"] for f in mir.adts[OBJ + "Reloc"]["variants"][0]["fields"]]

    def loc(sec, pos):
        return ("adt", OBJ + "Location", 0, "", tuple({"section": ("adt", OBJ + "LocationSection", SV.index(sec), sec, ()), "pos": pos}[n] for n in Lf))
    L0 = ("adt", WM + "Label", 0, "", (I(0, "usize"),))
    A = ("sym", "A", i64)
    for usec in SECT[:3]:
        for tyn in TV:
            for named in (False, True):
                for d in (None,) + tuple((s, g) for s in SECT for g in (False, True)):
                    ck.count("object production cases")
                    U, D = ("sym", "U", u64), ("sym", "D", u64)
                    dv = NONE if d is None else some(("adt", WM + "Def", 0, "", tuple({"is_global": B(d[1]), "location": loc(d[0], D)}[n] for n in DF)))
                    use = ("adt", WM + "Use", 0, "", tuple({"location": loc(usec, U), "target": L0, "addend": A, "ty": ("adt", OBJ + "RelocType", TV.index(tyn), tyn, ())}[n] for n in UF))
                    names = ("map", None, ((("s", "nm"), L0),)) if named else ("map", None, ())
                    v = w.value(defs=("arr", (dv,)), uses=("arr", (use,)), names=names)
                    e = Engine(mir, hooks)
                    rs = e.call_fn(State(), WM + "Writer::produce", [v])
                    what = "use in .%s of %s label defined %s via %s" % (usec.lower(), "a named" if named else "an unnamed", "in ." + d[0].lower() + (" (global)" if d[1] else "") if d else "nowhere", tyn)
                    key = "produce:%s:%s:%s:%s" % (usec, tyn, "named" if named else "unnamed", "%s%s" % (d[0], "+g" if d[1] else "") if d else "none")
                    static = d is not None and d[0] == usec and tyn in ("PcRel8", "PcRel32")
                    if d is None and not named:
                        ck.oblige(bool(rs) and all(x[3] == "Err" for _, x in rs), key, "%s: must be refused, got %s" % (what, [show(x) for _, x in rs]))
                        continue
                    fine = [(s, x) for s, x in rs if x[0] == "adt" and x[3] == "Ok"]
                    if not ck.oblige(bool(fine) and len(fine) == len(rs), key, "%s: object not produced: %s" % (what, [show(x) for _, x in rs])):
                        continue
                    for s, x in fine:
                        o = dict(zip(OF, e.snap(s, x[4][0])[4]))
                        # contents: only the patched section may differ from the input
                        for sec in SECT[:3]:
                            f = FIELD[sec]
                            c = o[f]
                            base = c[2][0] if c[0] == "app" and c[1] == "contents" else None
                            pats = c[2][2][1] if base is not None else None
                            exp = 1 if static and sec == usec else 0
                            ok_ = base == ("sym", "P." + f, u64) and len(pats) == exp and c[2][1] == ("arr", ())
                            if ok_ and exp:
                                ok_ = lin(pats[0][1][0]) == (0, ((U, 1),)) and field_of(pats[0][1][1][1], 1 if tyn == "PcRel8" else 4) == (0, tuple(sorted(((D, 1), (A, 1), (U, -1)), key=str)))
                            ck.oblige(ok_, key + ":" + f, "%s: .%s of the object is %s" % (what, f, show(c)))
                        ck.oblige(o["bss"] == ("sym", "w.bss", w.types["bss"]), key + ":bss", "%s: bss size of the object is %s" % (what, show(o["bss"])))
                        rel = o["relocs"]
                        if static:
                            ck.oblige(rel == ("arr", ()), key + ":reloc", "%s: resolved in place and still relocated: %s" % (what, show(rel)))
                        else:
                            good = rel[0] == "arr" and len(rel[1]) == 1
                            if good:
                                r = dict(zip(RF, rel[1][0][4]))
                                good = locparts(r["location"]) == (usec, (0, ((U, 1),))) and r["ty"][3] == tyn
                                if named and not (d is not None and not d[1] and r["target"][3] == "Section" and tyn != "PcRelToAddressTable32"):
                                    good = good and r["target"][3] == "Symbol" and r["target"][4][0] == ("s", "nm") and lin(r["addend"]) == (0, ((A, 1),))
                                else:
                                    good = good and r["target"][3] == "Section" and r["target"][4][0][3] == d[0] and lin(r["addend"]) == (0, tuple(sorted(((A, 1), (D, 1)), key=str)))
                            ck.oblige(good, key + ":reloc", "%s: relocations are %s" % (what, show(rel)))
                        sy = o["symbols"]
                        good = sy[0] == "arr" and len(sy[1]) == (1 if named else 0)
                        if good and named:
                            nm, b = sy[1][0][4]
                            good = nm == ("s", "nm")
                            if d is None:
                                good = good and b[3] == "Global" and b[4][0] == NONE
                            elif d[1]:
                                good = good and b[3] == "Global" and b[4][0][3] == "Some" and locparts(b[4][0][4][0]) == (d[0], (0, ((D, 1),)))
                            else:
                                good = good and b[3] == "Local" and locparts(b[4][0]) == (d[0], (0, ((D, 1),)))
                        ck.oblige(good, key + ":symbols", "%s: symbols are %s" % (what, show(sy)))
    ck.floor("object production cases", 3 * 4 * 2 * 9)


def check(ck):
    ck.rule("For every label form of every instruction and every register, the bytes computed by constant propagation equal the reference encoding with a RIP-relative or relative operand, exactly one use is recorded at the displacement field, with the bias from the field to the next instruction and the relocation kind of the form. Label, section and object operations are compared with their transfer functions for symbolic positions and addends, over all definition/section/type cases.")
    mir = Mir(["xten"])
    table = x86spec.build()
    label_forms(ck, mir, table)
    core(ck, mir)
