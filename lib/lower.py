"""The lowering passes as analysed code: what `Context::populate` makes of IR definitions."""
from absint import *
import absint
from facts import Mir
import iomodel, stdmodels, irb

LO = "llrl::lowering::"


class Low(Exception):
    pass


class Panic(Exception):
    """the passes stop the compiler"""


def copied(e, st, v):
    """the values of the lowering passes own what they refer to: a clone shares nothing with its original"""
    v = e.res(st, v)
    if v[0] == "ref":
        x = e.load(st, v[1], v[2])
        return e.new_cell(st, copied(e, st, x))
    if v[0] == "adt":
        return v[:4] + (tuple(copied(e, st, x) for x in v[4]),)
    if v[0] in ("tup", "arr"):
        return (v[0], tuple(copied(e, st, x) for x in v[1]))
    if v[0] == "map":
        return ("map", v[1], tuple((k, copied(e, st, x)) for k, x in v[2]))
    return v


def owns(t):
    """a type of the representation, or a container of such"""
    if t[0] == "adt":
        if t[1].startswith("std::"):
            return any(owns(x) for x in t[2])
        return t[1].startswith(LO)
    return t[0] in ("slice", "array", "tuple") and len(t) > 1 and any(owns(x) for x in (t[1] if t[0] == "tuple" else t[1:2]))


def hooks(e, st, c):
    d = strip_generics(c.d)
    if d == LO + "translator::translate":
        return [(st, e.source)]
    if d in ("std::clone::Clone::clone", "std::borrow::ToOwned::to_owned", "std::slice::to_vec") and c.targs and owns(c.targs[0]):
        r = e.deref(st, c.args[0])
        return [(st, copied(e, st, e.load(st, *r)))]
    if d == "std::sync::Arc::make_mut":
        # always as if shared: a fresh copy takes the place of the old contents
        cell, p = e.deref(st, c.args[0])
        v = e.res(st, e.load(st, cell, p))
        if v[0] != "ref":
            return None
        n = e.new_cell(st, copied(e, st, e.load(st, v[1], v[2])))
        e.store(st, cell, p, n)
        return [(st, n)]
    return iomodel.hooks(e, st, c)


class Lowering:
    def __init__(self, mir=None):
        self.mir = mir or Mir(["llrl"], canon=True)
        self.functions = set()
        self.populate = self.find(LO + "context::", "::populate")
        self.new = self.find(LO + "context::", "Context::new")
        self.define = self.find(LO + "context::", "::define_ct")
        self.trans = {}

    def find(self, pre, suf):
        c = [p for p in self.mir.fns if p.endswith(suf) and pre in p and "{closure" not in p]
        if len(c) != 1:
            raise Low("no unique %s%s: %s" % (pre, suf, c))
        return c[0]

    def engine(self):
        e = Engine(self.mir, hooks, max_visits=400, max_depth=200)
        e.aliases = {"<T as %stranslator::Translate>::Dest" % LO: ("adt", "std::option::Option", (("adt", LO + "ir::def::Init", ()),))}
        return e, State()


class Run:
    """a sequence of populate calls over one context"""

    def __init__(self, lo, defs, nct, nrt):
        self.lo = lo
        self.e, self.st = lo.engine()
        e, st = self.e, self.st
        r = e.call_fn(st, lo.new, [])
        self.ctx = e.new_cell(st, r[0][1])
        self.b = irb.Builder(e, st)
        self.gens(nct, nrt)
        for i, d in defs:
            self.one(e.call_fn(st, lo.define, [self.ctx, self.b.ctid(i), self.b.def_(d)]))

    def one(self, rs):
        e = self.e
        if e.panics:
            raise Panic("%s: %s" % (e.panics[0][1], e.panics[0][2]))
        if e.cuts:
            raise Low("not analysed to the end: %s" % e.cuts[0][1])
        if len(rs) != 1:
            raise Low("%d outcomes" % len(rs))
        self.st = self.b.st = rs[0][0]
        return rs[0][1]

    def gens(self, nct, nrt):
        """identifiers below these are taken by the given definitions"""
        e, st = self.e, self.st
        for f, n, t in (("ct_id_gen", nct, "ctid"), ("rt_id_gen", nrt, "rtid")):
            adt = e.mir.adts[LO + "context::Context"]
            k = [x["n"] for x in adt["variants"][0]["fields"]].index(f)
            v = e.load(st, self.ctx[1], self.ctx[2])
            g = v[4][k]
            e.store(st, self.ctx[1], self.ctx[2], v[:4] + (v[4][:k] + (g[:4] + ((getattr(self.b, t)(n),),),) + v[4][k + 1:],))

    def step(self, ty, term):
        """populates with an initialiser: (decoded result, [(id, decoded definition)])"""
        e, st = self.e, self.st
        e.source = some(self.b.struct("Init", ty=self.b.ct(ty), expr=self.b.term(term)))
        srcty = ("adt", "llrl::ast::expr::InitExpr", ())
        v = self.one(e.call_fn(st, self.lo.populate, [self.ctx, e.new_cell(st, UNIT), e.new_cell(st, UNIT)],
                               (srcty, ("adt", "std::collections::HashMap", ()))))
        self.lo.functions |= e.analysed
        rd = irb.Reader(e, self.st)
        dest, it = rd.tup(v)
        n, a = rd.variant(dest)
        if n != "Some":
            raise Low("the initialiser is lost")
        f = rd.fields(a[0])
        items = absint.drain_iter(e, self.st, e.res(self.st, it), None)
        if items is None or len(items) != 1:
            raise Low("the emitted definitions are not determined")
        self.st, items = items[0]
        rd.st = self.b.st = self.st
        out = []
        for x in items:
            i, d = rd.tup(x)
            out.append((rd.id(i), rd.def_(d)))
        return (rd.ct(f["ty"]), rd.term(f["expr"])), out
