"""More contracts of std / smallvec / itertools operations for absint (imported for its side effects)."""
import math
import struct
import facts
from absint import *
import absint

SEQ_T = ("std::vec::Vec", "smallvec::SmallVec", "std::collections::VecDeque", "std::collections::vec_deque::VecDeque", "heapless::Vec", "arrayvec::ArrayVec")
SLICE_T = ("core::slice::<impl [T]>", "std::slice::<impl [T]>", "<[T]>", "alloc::slice::<impl [T]>", "slice")


def seq_op(*ops, slices=False):
    def w(f):
        for o in ops:
            for t in SEQ_T + (SLICE_T if slices else ()):
                MODELS[t + "::" + o] = f
        return f
    return w


def it_op(*ops):
    def w(f):
        for o in ops:
            MODELS["std::iter::Iterator::" + o] = f
            MODELS["std::iter::DoubleEndedIterator::" + o] = f
            MODELS["itertools::Itertools::" + o] = f
        return f
    return w


def opname(c):
    return strip_generics(c.d).split("::")[-1]


def is_it(v):
    return v[0] == "adt" and v[1] in ("$It", "$Src", "$Map") or v[0] == "adt" and v[1] in ("std::ops::Range", "std::option::Option")


def items_of(e, st, v, c):
    """[(state, [items])] of an iterator or into-iterator value, or None"""
    v = e.res(st, v)
    if v[0] == "ref":
        x = e.load(st, v[1], v[2])
        if x[0] == "adt" and x[1] in ("$It", "$Src", "$Map", "std::ops::Range"):
            out = []
            done, work = [], [(st, [])]
            while work:
                s, acc = work.pop()
                r = it_next(e, s, v[1], v[2], c)
                if r is None:
                    return None
                for s2, o in r:
                    if o[3] == "None":
                        done.append((s2, acc))
                    elif len(acc) < 300:
                        work.append((s2, acc + [o[4][0]]))
            return done
    if v[0] == "adt" and v[1] in ("$It", "$Src", "$Map"):
        return drain_iter(e, st, v, c, 300)
    if v[0] == "adt" and v[1] == "std::ops::Range" and as_items(e, st, v, False) is not None:
        return [(st, as_items(e, st, v, False))]
    if v[0] == "adt" and v[1] == "std::option::Option":
        return [(st, list(v[4]))]
    if is_term(v):
        t = e.term_ty(v)
        if t and t[0] == "adt" and t[1] == "std::option::Option":
            return [(s, list(x[4])) for s, x in split_variant(e, st, v)]
        if t and t[0] == "adt" and t[1] in SEQ_T:
            return drain_iter(e, st, mk_src(v, elem_ty(t)), c, 300)
    x = as_items(e, st, v, False)
    if x is not None:
        return [(st, x)]
    if v[0] == "ref":
        x = e.load(st, v[1], v[2])
        t = e.term_ty(x)
        if t is not None:
            return drain_iter(e, st, mk_src(x, ("ref", 0, elem_ty(t))), c, 300)
    return None


class Pull:
    """the items of a mapped iterator, produced one at a time: a consumer that stops early does not run the rest"""

    def __init__(self, v, c):
        self.v, self.c = v, c

    def at(self, e, st):
        if self.v[0] == "ref":
            return e.deref(st, self.v)
        return e.new_cell(st, self.v)[1], ()


def mapped(e, st, v):
    """the argument, if it is a mapped iterator over known items"""
    v = e.res(st, v)
    x = e.load(st, *e.deref(st, v)) if v[0] == "ref" else v
    k = x
    while k[0] == "adt" and k[1] == "$Map":
        k = k[4][0]
    return v if x[0] == "adt" and x[1] == "$Map" and k[0] == "adt" and k[1] in ("$It", "std::ops::Range") else None


def each(e, st, items, step, init, limit=20000):
    """Threads states through a list of items: step(state, acc, item) -> [(state, acc, stop)]"""
    live, done = [(st, init)], []
    if isinstance(items, Pull):
        cell, p = items.at(e, st)
        n = 0
        while live:
            nxt = []
            for s, acc in live:
                for s1, o in it_next(e, s, cell, p, items.c):
                    if o[3] == "None":
                        done.append((s1, acc))
                        continue
                    for s2, a2, stop in step(s1, acc, o[4][0]):
                        (done if stop else nxt).append((s2, a2))
            live, n = nxt, n + 1
            if len(live) > limit or n > 400:
                raise Stop("too many partitions in an iterator chain")
        return done
    for x in items:
        nxt = []
        for s, acc in live:
            for s2, a2, stop in step(s, acc, x):
                (done if stop else nxt).append((s2, a2))
        live = nxt
        if len(live) > limit:
            raise Stop("too many partitions in an iterator chain")
    return live + done


def call_bool(e, s, f, args, depth):
    """[(state, bool)]"""
    out = []
    for s2, v in e.call_value(s, f, args, depth=depth):
        out += split_bool(e, s2, e.res(s2, v))
    return out


def chain(fn):
    """eager adapter: fn(e, st, c, items) -> [(state, items)]"""
    def f(e, st, c):
        if c.path in e.mir.fns and c.path != c.d:
            return None
        r = items_of(e, st, c.args[0], c)
        if r is None:
            return None
        out = []
        for s, items in r:
            q = fn(e, s, c, items)
            if q is None:
                return None
            out += [(s2, mk_iter(x)) for s2, x in q]
        return out
    return f


def fold(fn):
    """eager consumer: fn(e, st, c, items) -> [(state, value)]"""
    def f(e, st, c):
        if c.path in e.mir.fns and c.path != c.d:
            return None
        r = items_of(e, st, c.args[0], c)
        if r is None:
            return None
        out = []
        for s, items in r:
            q = fn(e, s, c, items)
            if q is None:
                return None
            out += q
        return out
    return f


def short(fn):
    """consumer that may stop early"""
    g = fold(fn)

    def f(e, st, c):
        v = mapped(e, st, c.args[0])
        if v is None or c.path in e.mir.fns and c.path != c.d:
            return g(e, st, c)
        return fn(e, st, c, Pull(v, c))
    return f


@it_op("filter")
@chain
def _(e, st, c, items):
    return each(e, st, items, lambda s, a, x: [(s2, a + [x] if b else a, False) for s2, b in call_bool(e, s, c.args[1], [e.new_cell(s, x)], c.depth)], [])


@it_op("filter_map", "flat_map")
@chain
def _(e, st, c, items):
    def step(s, a, x):
        out = []
        for s2, v in e.call_value(s, c.args[1], [x], depth=c.depth):
            r = items_of(e, s2, v, c)
            if r is None:
                r = [(s2, [("app", "splice", (e.snap(s2, v),), ("?",))])]
            out += [(s3, a + list(xs), False) for s3, xs in r]
        return out
    return each(e, st, items, step, [])


@it_op("flatten", "flatten_ok")
@chain
def _(e, st, c, items):
    def step(s, a, x):
        r = items_of(e, s, x, c)
        if r is None:
            r = [(s, [("app", "splice", (e.snap(s, x),), ("?",))])]
        return [(s2, a + list(xs), False) for s2, xs in r]
    return each(e, st, items, step, [])


@it_op("inspect")
@chain
def _(e, st, c, items):
    return each(e, st, items, lambda s, a, x: [(s2, a + [x], False) for s2, _ in e.call_value(s, c.args[1], [e.new_cell(s, x)], depth=c.depth)], [])


@it_op("skip", "take", "step_by")
@chain
def _(e, st, c, items):
    n = e.res(st, c.args[1])
    if n[0] != "i":
        return None
    return [(st, items[n[1]:] if opname(c) == "skip" else items[:n[1]] if opname(c) == "take" else items[::n[1]])]


@it_op("take_while", "skip_while")
@chain
def _(e, st, c, items):
    take = opname(c) == "take_while"

    def step(s, a, x):
        on, acc = a
        if not on:
            return [(s, (on, acc + [x]), False)] if not take else [(s, a, True)]
        return [(s2, (b, acc + [x]) if (b == take) else (b, acc), take and not b) for s2, b in call_bool(e, s, c.args[1], [e.new_cell(s, x)], c.depth)]
    return [(s, a[1]) for s, a in each(e, st, items, step, (True, []))]


@it_op("chain")
@chain
def _(e, st, c, items):
    r = items_of(e, st, c.args[1], c)
    return r and [(s, items + list(x)) for s, x in r]


@it_op("zip", "zip_eq")
@chain
def _(e, st, c, items):
    r = items_of(e, st, c.args[1], c)
    return r and [(s, [("tup", (a, b)) for a, b in zip(items, x)]) for s, x in r]


MODELS["itertools::zip"] = None
del MODELS["itertools::zip"]


@it_op("rev")
@chain
def _(e, st, c, items):
    return [(st, items[::-1])]


@it_op("peekable", "fuse", "by_ref", "into_iter")
def _(e, st, c):
    v = e.res(st, c.args[0])
    if opname(c) == "by_ref":
        return [(st, v)]
    return [(st, v)] if is_it(v) else None


@mdl("std::iter::Peekable::peek", "std::iter::Peekable::next_if", "std::iter::Peekable::peek_mut")
def _(e, st, c):
    cell, p = e.deref(st, c.args[0])
    v = e.load(st, cell, p)
    if v[0] != "adt":
        return None
    out = []
    for s, items in items_of(e, st.fork(), v, c) or []:
        e.store(s, cell, p, mk_iter(items))
        out.append((s, some(e.new_cell(s, items[0])) if items else NONE))
    return out


@it_op("size_hint")
def _(e, st, c):
    return [(st, ("tup", (("app", "size_hint", (), ("prim", "usize")), NONE)))]


@it_op("count")
@fold
def _(e, st, c, items):
    return [(st, I(len(items), "usize"))]


@it_op("last")
@fold
def _(e, st, c, items):
    return [(st, some(items[-1]) if items else NONE)]


@it_op("nth")
def _(e, st, c):
    cell, p = e.deref(st, c.args[0])
    v = e.load(st, cell, p)
    n = e.res(st, c.args[1])
    if n[0] != "i" or v[0] != "adt":
        return None
    r = items_of(e, st, v, c)
    out = []
    for s, items in r or []:
        e.store(s, cell, p, mk_iter(items[n[1] + 1:]))
        out.append((s, some(items[n[1]]) if n[1] < len(items) else NONE))
    return out or None


@it_op("any", "all")
@short
def _(e, st, c, items):
    want = opname(c) == "any"
    r = each(e, st, items, lambda s, a, x: [(s2, b == want, b == want) for s2, b in call_bool(e, s, c.args[1], [x], c.depth)], False)
    return [(s, B(a == want)) for s, a in r]


@it_op("find", "rfind")
@short
def _(e, st, c, items):
    if opname(c) == "rfind":
        r = items_of(e, st, items.v, c)[0] if isinstance(items, Pull) else (st, items)
        st, items = r[0], r[1][::-1]
    r = each(e, st, items, lambda s, a, x: [(s2, some(x) if b else NONE, b) for s2, b in call_bool(e, s, c.args[1], [e.new_cell(s, x)], c.depth)], NONE)
    return r


@it_op("position", "rposition")
@short
def _(e, st, c, items):
    if isinstance(items, Pull):
        if opname(c) == "position":
            r = each(e, st, items, lambda s, a, x: [(s2, some(I(a[1], "usize")) if b else ("$at", a[1] + 1), b) for s2, b in call_bool(e, s, c.args[1], [x], c.depth)], ("$at", 0))
            return [(s, NONE if v[0] == "$at" else v) for s, v in r]
        st, items = items_of(e, st, items.v, c)[0]
    xs = list(enumerate(items))
    if opname(c) == "rposition":
        xs = xs[::-1]
    return each(e, st, xs, lambda s, a, x: [(s2, some(I(x[0], "usize")) if b else NONE, b) for s2, b in call_bool(e, s, c.args[1], [x[1]], c.depth)], NONE)


@it_op("find_map")
@short
def _(e, st, c, items):
    def step(s, a, x):
        out = []
        for s2, v in e.call_value(s, c.args[1], [x], depth=c.depth):
            q = split_variant(e, s2, v)
            if q is None:
                return [(s2, v, True)]
            out += [(s3, w, w[3] == "Some") for s3, w in q]
        return out
    return each(e, st, items, step, NONE)


@it_op("for_each")
@fold
def _(e, st, c, items):
    return each(e, st, items, lambda s, a, x: [(s2, a, False) for s2, _ in e.call_value(s, c.args[1], [x], depth=c.depth)], UNIT)


@it_op("fold")
@fold
def _(e, st, c, items):
    return each(e, st, items, lambda s, a, x: [(s2, v, False) for s2, v in e.call_value(s, c.args[2], [a, x], depth=c.depth)], c.args[1])


@it_op("reduce")
def _(e, st, c):
    items = items_of(e, st, c.args[0], c)
    if items is None:
        return None
    out = []
    for s, xs in items:
        if not xs:
            out.append((s, NONE))
            continue
        live = [(s, xs[0])]
        for x in xs[1:]:
            live = [q for s1, a in live for q in e.call_value(s1, c.args[1], [a, x], depth=c.depth)]
        out += [(s1, some(a)) for s1, a in live]
    return out


@it_op("try_for_each", "try_fold")
@short
def _(e, st, c, items):
    tf = opname(c) == "try_fold"
    f = c.args[2] if tf else c.args[1]
    wrapt = c.dty

    def step(s, a, x):
        out = []
        for s2, v in e.call_value(s, f, [a, x] if tf else [x], depth=c.depth):
            q = split_variant(e, s2, v)
            if q is None:
                return [(s2, v, True)]
            for s3, w in q:
                good = w[3] in ("Ok", "Some", "Continue")
                out.append((s3, (w[4][0] if w[4] else UNIT) if good else ("$stop", w), not good))
        return out
    r = each(e, st, items, step, c.args[1] if tf else UNIT)
    w = some if wrapt[0] == "adt" and wrapt[1].endswith("Option") else ok
    return [(s, v[1] if v[0] == "$stop" else w(v)) for s, v in r]


@it_op("sum", "product")
@fold
def _(e, st, c, items):
    t = c.dty if c.dty[0] == "prim" else ("prim", "u64")
    acc = I(0 if opname(c) == "sum" else 1, t[1])
    for x in items:
        x = e.through(st, x)
        acc = e.binop("Add" if opname(c) == "sum" else "Mul", acc, x, t)
    return [(st, acc)]


def _minmax(e, st, a, b, op, t):
    """[(state, value)]"""
    a, b = e.res(st, a), e.res(st, b)
    if a == b:
        return [(st, a)]
    if a[0] == "i" and b[0] == "i":
        return [(st, ("i", (min if op == "min" else max)(a[1], b[1]), a[2]))]
    r = ordering(e, st, a, b, 0)
    if r:
        # of equal ones, min is the first and max is the second
        return [(s, (a if k <= 0 else b) if op == "min" else (b if k <= 0 else a)) for s, k in r]
    return [(st, ("app", op, (a, b), t))]


@mdl("std::cmp::Ord::min", "std::cmp::Ord::max", "std::cmp::min", "std::cmp::max")
def _(e, st, c):
    if c.path in e.mir.fns and c.tr:
        return None
    return _minmax(e, st, c.args[0], c.args[1], opname(c), c.dty)


@it_op("min", "max")
@fold
def _(e, st, c, items):
    if not items:
        return [(st, NONE)]
    live = [(st, items[0])]
    for x in items[1:]:
        live = [(s2, v) for s, a in live for s2, v in _minmax(e, s, a, x, opname(c), ("?",))]
    return [(s, some(v)) for s, v in live]


@it_op("partition_map")
@fold
def _(e, st, c, items):
    def step(s, a, x):
        out = []
        for s2, v in e.call_value(s, c.args[1], [x], depth=c.depth):
            v = e.res(s2, v)
            out.append((s2, (a[0] + (v[4][0],), a[1]) if v[3] == "Left" else (a[0], a[1] + (v[4][0],)), False))
        return out
    return [(s, ("tup", (("arr", a[0]), ("arr", a[1])))) for s, a in each(e, st, items, step, ((), ()))]


@it_op("partition")
@fold
def _(e, st, c, items):
    r = each(e, st, items, lambda s, a, x: [(s2, (a[0] + (x,), a[1]) if b else (a[0], a[1] + (x,)), False) for s2, b in call_bool(e, s, c.args[1], [e.new_cell(s, x)], c.depth)], ((), ()))
    return [(s, ("tup", (("arr", a[0]), ("arr", a[1])))) for s, a in r]


@it_op("unzip")
@fold
def _(e, st, c, items):
    xs = [e.res(st, x) for x in items]
    if any(x[0] != "tup" for x in xs):
        return None
    return [(st, ("tup", (("arr", tuple(x[1][0] for x in xs)), ("arr", tuple(x[1][1] for x in xs)))))]


@it_op("collect", "collect_vec", "from_iter", "try_collect")
def _collect(e, st, c):
    if c.path in e.mir.fns and c.path != c.d:
        return None
    t = c.dty
    v = mapped(e, st, c.args[0]) if t[0] == "adt" and t[1] in ("std::result::Result", "std::option::Option") else None
    r = [(st, Pull(v, c))] if v is not None else items_of(e, st, c.args[0], c)
    if r is None:
        return None
    out = []
    for s, items in r:
        if t[0] == "adt" and t[1].split("::")[-1] in ("HashMap", "BTreeMap") and all(e.res(s, x)[0] == "tup" for x in items):
            m = ("map", None, ())
            for x in items:
                x = e.res(s, x)
                m = map_put(e, s, m, e.snap(s, x[1][0]), x[1][1])
            out.append((s, m))
        elif t[0] == "adt" and t[1].split("::")[-1] in ("HashSet", "BTreeSet"):
            m = ("map", None, ())
            for x in items:
                m = map_put(e, s, m, e.snap(s, x), UNIT)
            out.append((s, m))
        elif t[0] == "adt" and t[1] in ("std::result::Result", "std::option::Option"):
            def step(s1, a, x):
                q = split_variant(e, s1, x)
                if q is None:
                    return [(s1, a + (("app", "unwrap", (x,), ("?",)),), False)]
                return [(s2, a + (w[4][0],) if w[3] in ("Ok", "Some") else ("$stop", w), w[3] in ("Err", "None")) for s2, w in q]
            w = ok if t[1].endswith("Result") else some
            inner = t[2][0] if t[2] else ("?",)
            for s2, a in each(e, s, items, step, ()):
                if a and a[0] == "$stop":
                    out.append((s2, a[1]))
                elif inner[0] == "adt" and inner[1].split("::")[-1] in ("HashMap", "BTreeMap", "HashSet", "BTreeSet"):
                    m = ("map", None, ())
                    for x in a:
                        x = e.res(s2, x)
                        m = map_put(e, s2, m, e.snap(s2, x[1][0] if x[0] == "tup" else x), x[1][1] if x[0] == "tup" else UNIT)
                    out.append((s2, w(m)))
                elif inner == ("tuple", ()):
                    out.append((s2, w(UNIT)))
                else:
                    out.append((s2, w(("arr", a))))
        else:
            out.append((s, ("arr", tuple(items))))
    return out


MODELS["std::iter::FromIterator::from_iter"] = _collect


# ---- sequences ----------------------------------------------------------------------------------------------
@seq_op("new", "with_capacity", "from_vec")
def _(e, st, c):
    if c.args and opname(c) == "from_vec":
        return [(st, c.args[0])]
    return [(st, ("arr", ()))]


def seq_at(e, st, c, k=0):
    cell, p = e.deref(st, c.args[k])
    v = e.load(st, cell, p)
    if v[0] == "ref":
        cell, p = v[1], v[2]
        v = e.load(st, cell, p)
    return cell, p, v


@seq_op("push", "push_back")
def _(e, st, c):
    cell, p, v = seq_at(e, st, c)
    if v[0] == "arr":
        e.store(st, cell, p, ("arr", v[1] + (c.args[1],)))
    else:
        e.store(st, cell, p, ("app", "push", (v, e.snap(st, c.args[1])), e.term_ty(v) or ("?",)))
    return [(st, UNIT)]


@mdl("typed_arena::Arena::new", "typed_arena::Arena::with_capacity")
def _(e, st, c):
    return [(st, ("arr", ()))]


@mdl("typed_arena::Arena::alloc")
def _(e, st, c):
    cell, p, v = seq_at(e, st, c)
    if v[0] != "arr":
        return None
    e.store(st, cell, p, ("arr", v[1] + (c.args[1],)))
    return [(st, ("ref", cell, p + (("i", I(len(v[1]), "usize")),)))]


@mdl("typed_arena::Arena::into_vec", "typed_arena::Arena::len")
def _(e, st, c):
    v = e.res(st, e.through(st, c.args[0]))
    if v[0] != "arr":
        return None
    return [(st, v if opname(c) == "into_vec" else I(len(v[1]), "usize"))]


@seq_op("pop", "pop_back")
def _(e, st, c):
    cell, p, v = seq_at(e, st, c)
    if v[0] == "arr":
        if not v[1]:
            return [(st, NONE)]
        e.store(st, cell, p, ("arr", v[1][:-1]))
        return [(st, some(v[1][-1]))]
    if v[0] == "app" and v[1] == "push":
        e.store(st, cell, p, v[2][0])
        return [(st, some(v[2][1]))]
    return None


@seq_op("push_front")
def _(e, st, c):
    cell, p, v = seq_at(e, st, c)
    if v[0] != "arr":
        return None
    e.store(st, cell, p, ("arr", (c.args[1],) + v[1]))
    return [(st, UNIT)]


@seq_op("split_off")
def _(e, st, c):
    cell, p, v = seq_at(e, st, c)
    n = e.res(st, c.args[1])
    if v[0] != "arr" or n[0] != "i":
        return None
    if n[1] > len(v[1]):
        raise Panic("split beyond the end")
    e.store(st, cell, p, ("arr", v[1][:n[1]]))
    return [(st, ("arr", v[1][n[1]:]))]


@seq_op("pop_front")
def _(e, st, c):
    cell, p, v = seq_at(e, st, c)
    if v[0] == "arr":
        if not v[1]:
            return [(st, NONE)]
        e.store(st, cell, p, ("arr", v[1][1:]))
        return [(st, some(v[1][0]))]
    return None


@seq_op("insert", "remove", "swap_remove", "truncate", "clear", "swap", slices=True)
def _(e, st, c):
    cell, p, v = seq_at(e, st, c)
    if v[0] != "arr":
        return None
    xs = list(v[1])
    op = opname(c)
    a = [e.res(st, x) for x in c.args[1:]]
    ret = UNIT
    if op == "clear":
        xs = []
    elif a[0][0] != "i":
        return None
    elif op == "insert":
        xs.insert(a[0][1], a[1])
    elif op == "truncate":
        xs = xs[:a[0][1]]
    elif op == "swap":
        i, j = a[0][1], a[1][1]
        xs[i], xs[j] = xs[j], xs[i]
    else:
        i = a[0][1]
        if not 0 <= i < len(xs):
            raise Panic("index out of bounds")
        ret = xs[i]
        if op == "remove":
            del xs[i]
        else:
            xs[i] = xs[-1]
            xs.pop()
    e.store(st, cell, p, ("arr", tuple(xs)))
    return [(st, ret)]


@seq_op("resize_with", "resize")
def _(e, st, c):
    cell, p, v = seq_at(e, st, c)
    n = e.res(st, c.args[1])
    if v[0] != "arr" or n[0] != "i" or n[1] > 4096:
        return None
    xs = list(v[1][:n[1]])
    live = [(st, xs)]
    while live and len(live[0][1]) < n[1]:
        if opname(c) == "resize":
            live = [(s, x + [c.args[2]]) for s, x in live]
        else:
            live = [(s2, x + [y]) for s, x in live for s2, y in e.call_value(s, c.args[2], [], depth=c.depth)]
    for s, x in live:
        e.store(s, cell, p, ("arr", tuple(x)))
    return [(s, UNIT) for s, _ in live]


@seq_op("extend", "extend_from_slice", "append")
def _extend(e, st, c):
    cell, p, v = seq_at(e, st, c)
    if opname(c) == "append":
        c2, p2, w = seq_at(e, st, c, 1)
        if v[0] == "arr" and w[0] == "arr":
            e.store(st, cell, p, ("arr", v[1] + w[1]))
            e.store(st, c2, p2, ("arr", ()))
            return [(st, UNIT)]
        return None
    if v[0] == "map":
        r = items_of(e, st, c.args[1], c)
        for s, xs in r or []:
            m = e.load(s, cell, p)
            for x in xs:
                x = e.res(s, x)
                m = map_put(e, s, m, e.snap(s, x[1][0]), x[1][1]) if x[0] == "tup" else map_put(e, s, m, e.snap(s, x), UNIT)
            e.store(s, cell, p, m)
        return [(s, UNIT) for s, _ in r] if r else None
    r = items_of(e, st, c.args[1], c)
    if r is None or v[0] != "arr":
        if c.path in e.mir.fns and c.path != c.d:
            return None
        x = e.snap(st, c.args[1])
        if v[0] in ("arr", "app", "sym"):
            e.store(st, cell, p, ("app", "extend", (v, x), e.term_ty(v) or ("?",)))
            return [(st, UNIT)]
        return None
    for s, xs in r:
        if "slice" in opname(c):
            xs = [e.through(s, x) for x in xs]
        e.store(s, cell, p, ("arr", e.load(s, cell, p)[1] + tuple(xs)))
    return [(s, UNIT) for s, _ in r]


MODELS["std::iter::Extend::extend"] = lambda e, st, c: None if c.path in e.mir.fns else _extend(e, st, c)


@seq_op("is_empty", slices=True)
def _(e, st, c):
    v = e.through(st, c.args[0])
    if v[0] in ("arr", "b"):
        return [(st, B(not v[1]))]
    return [(st, ("app", "is_empty", (v,), ("prim", "bool")))]


@seq_op("len", slices=True)
def _(e, st, c):
    return seq_len(e, st, c)


@seq_op("into_iter", "iter", "iter_mut", "drain", slices=True)
def _(e, st, c):
    if opname(c) == "drain":
        cell, p, v = seq_at(e, st, c)
        r = e.res(st, c.args[1]) if len(c.args) > 1 else UNIT
        if v[0] == "arr" and r[0] == "adt":
            k, n = r[1].split("::")[-1], len(v[1])
            f = [e.res(st, x) for x in r[4]]
            if all(x[0] == "i" for x in f):
                f = [x[1] for x in f]
                b = {"RangeFull": lambda: (0, n), "RangeFrom": lambda: (f[0], n), "RangeTo": lambda: (0, f[0]), "Range": lambda: (f[0], f[1])}.get(k)
                if b:
                    a, z = b()
                    if a > z or z > n:
                        raise Panic("drain out of range")
                    e.store(st, cell, p, ("arr", v[1][:a] + v[1][z:]))
                    return [(st, mk_iter(v[1][a:z]))]
        e.lost["Vec::drain"] = e.lost.get("Vec::drain", 0) + 1
    return m_into_iter(e, st, c)


@seq_op("reverse", slices=True)
def _(e, st, c):
    cell, p, v = seq_at(e, st, c)
    if v[0] != "arr":
        return None
    e.store(st, cell, p, ("arr", v[1][::-1]))
    return [(st, UNIT)]


@seq_op("contains", slices=True)
def _(e, st, c):
    v = e.through(st, c.args[0])
    x = e.snap(st, e.through(st, c.args[1]))
    if v[0] != "arr":
        return None
    ys = [e.snap(st, y) for y in v[1]]
    if any(y == x for y in ys):
        return [(st, B(True))]
    if concrete(x) and all(concrete(y) for y in ys):
        return [(st, B(False))]
    return None


@seq_op("to_vec", "into_vec", "as_slice", "as_mut_slice", "into_boxed_slice", slices=True)
def _(e, st, c):
    op = opname(c)
    if op in ("as_slice", "as_mut_slice"):
        return [(st, c.args[0])]
    if op == "to_vec":
        return [(st, e.through(st, c.args[0]))]
    return [(st, e.through(st, c.args[0]))]


@seq_op("split_first", "split_last", slices=True)
def _(e, st, c):
    cell, p, v = seq_at(e, st, c)
    if v[0] != "arr":
        return None
    if not v[1]:
        return [(st, NONE)]
    if opname(c) == "split_first":
        h, t = ("ref", cell, p + (("i", I(0, "usize")),)), e.new_cell(st, ("arr", v[1][1:]))
    else:
        h, t = ("ref", cell, p + (("i", I(len(v[1]) - 1, "usize")),)), e.new_cell(st, ("arr", v[1][:-1]))
    return [(st, some(("tup", (h, t))))]


# ---- Option / Result ----------------------------------------------------------------------------------------
@mdl("std::option::Option::map_or_else", "std::result::Result::map_or_else")
def _(e, st, c):
    r = split_variant(e, st, c.args[0])
    if r is None:
        return None
    out = []
    for s, v in r:
        if v[3] in ("Some", "Ok"):
            out += e.call_value(s, c.args[2], [v[4][0]], depth=c.depth)
        else:
            out += e.call_value(s, c.args[1], list(v[4]), depth=c.depth)
    return out


@mdl("std::result::Result::map_or")
def _(e, st, c):
    r = split_variant(e, st, c.args[0])
    if r is None:
        return None
    out = []
    for s, v in r:
        if v[3] == "Ok":
            out += e.call_value(s, c.args[2], [v[4][0]], depth=c.depth)
        else:
            out.append((s, c.args[1]))
    return out


@mdl("std::option::Option::ok_or", "std::option::Option::or", "std::option::Option::xor", "std::result::Result::or", "std::option::Option::and", "std::result::Result::and")
def _(e, st, c):
    r = split_variant(e, st, c.args[0])
    if r is None:
        return None
    op = opname(c)
    out = []
    for s, v in r:
        good = v[3] in ("Some", "Ok")
        if op == "ok_or":
            out.append((s, ok(v[4][0]) if good else err(c.args[1])))
        elif op == "or":
            out.append((s, v if good else c.args[1]))
        elif op == "and":
            out.append((s, c.args[1] if good else v))
        else:
            return None
    return out


@mdl("either::Either::left", "either::Either::right", "itertools::Either::left", "itertools::Either::right")
def _(e, st, c):
    r = split_variant(e, st, c.args[0])
    if r is None:
        return None
    return [(s, some(v[4][0]) if v[3].lower() == opname(c) else NONE) for s, v in r]


@mdl("std::result::Result::ok", "std::result::Result::err")
def _(e, st, c):
    r = split_variant(e, st, c.args[0])
    if r is None:
        return None
    want = "Ok" if opname(c) == "ok" else "Err"
    return [(s, some(v[4][0]) if v[3] == want else NONE) for s, v in r]


@mdl("std::result::Result::unwrap_or_else", "std::result::Result::or_else")
def _(e, st, c):
    r = split_variant(e, st, c.args[0])
    if r is None:
        return None
    out = []
    for s, v in r:
        if v[3] == "Ok":
            out.append((s, v[4][0] if opname(c) == "unwrap_or_else" else v))
        else:
            out += e.call_value(s, c.args[1], [v[4][0]], depth=c.depth)
    return out


@mdl("std::option::Option::unwrap_or_default", "std::result::Result::unwrap_or_default")
def _(e, st, c):
    r = split_variant(e, st, c.args[0])
    if r is None:
        return None
    return [(s, v[4][0] if v[3] in ("Some", "Ok") else default_of(c.dty)) for s, v in r]


@mdl("std::option::Option::filter")
def _(e, st, c):
    r = split_variant(e, st, c.args[0])
    if r is None:
        return None
    out = []
    for s, v in r:
        if v[3] == "None":
            out.append((s, v))
        else:
            out += [(s2, v if b else NONE) for s2, b in call_bool(e, s, c.args[1], [e.new_cell(s, v[4][0])], c.depth)]
    return out


@mdl("std::option::Option::is_some_and", "std::option::Option::is_none_or", "std::result::Result::is_ok_and", "std::result::Result::is_err_and")
def _(e, st, c):
    r = split_variant(e, st, c.args[0])
    if r is None:
        return None
    op = opname(c)
    out = []
    for s, v in r:
        hit = {"is_some_and": "Some", "is_none_or": "Some", "is_ok_and": "Ok", "is_err_and": "Err"}[op] == v[3]
        if hit:
            out += e.call_value(s, c.args[1], [v[4][0]], depth=c.depth)
        else:
            out.append((s, B(op == "is_none_or")))
    return out


@mdl("std::option::Option::insert", "std::option::Option::replace", "std::option::Option::get_or_insert_with", "std::option::Option::get_or_insert",
     "once_cell::unsync::OnceCell::get_or_init", "std::cell::OnceCell::get_or_init")
def _(e, st, c):
    cell, p, v = seq_at(e, st, c)
    op = opname(c)
    inner = ("ref", cell, p + (("d", 1, "Some"), ("f", 0, "0", ("?",))))
    if op == "replace":
        e.store(st, cell, p, some(c.args[1]))
        return [(st, v)]
    if op == "insert":
        e.store(st, cell, p, some(c.args[1]))
        return [(st, inner)]
    out = []
    for s, x in split_variant(e, st, v) or []:
        if x[3] == "Some":
            out.append((s, inner))
        else:
            for s2, y in (e.call_value(s, c.args[1], [], depth=c.depth) if op != "get_or_insert" else [(s, c.args[1])]):
                e.store(s2, cell, p, some(y))
                out.append((s2, inner))
    return out


@mdl("std::option::Option::as_deref_mut", "std::option::Option::as_deref", "std::result::Result::as_mut", "std::result::Result::as_deref")
def _(e, st, c):
    return m_opt_ref(e, st, c)


@mdl("std::option::Option::flatten", "std::option::Option::transpose")
def _(e, st, c):
    r = split_variant(e, st, c.args[0])
    if r is None:
        return None
    out = []
    for s, v in r:
        if opname(c) == "flatten":
            out.append((s, v[4][0] if v[3] == "Some" else v))
        elif v[3] == "None":
            out.append((s, ok(NONE)))
        else:
            for s2, w in split_variant(e, s, v[4][0]) or []:
                out.append((s2, ok(some(w[4][0])) if w[3] == "Ok" else w))
    return out


@mdl("bool::then_some", "core::bool::<impl bool>::then_some", "std::primitive::bool::then_some")
def _(e, st, c):
    return [(s, some(c.args[1]) if b else NONE) for s, b in split_bool(e, st, e.res(st, c.args[0]))]


# ---- cells, locks (single-threaded meaning) -----------------------------------------------------------------
@mdl("std::cell::RefCell::borrow", "std::cell::RefCell::borrow_mut", "std::cell::RefCell::get_mut", "std::cell::Cell::as_ptr")
def _(e, st, c):
    return [(st, ("ref",) + e.deref(st, c.args[0]))]


@mdl("std::cell::Cell::get")
def _(e, st, c):
    return [(st, e.load(st, *e.deref(st, c.args[0])))]


@mdl("std::cell::Cell::set")
def _(e, st, c):
    cell, p = e.deref(st, c.args[0])
    e.store(st, cell, p, c.args[1])
    return [(st, UNIT)]


@mdl("std::cell::Cell::new", "std::cell::RefCell::new", "std::cell::RefCell::into_inner", "std::cell::Cell::into_inner")
def _(e, st, c):
    return [(st, c.args[0])]


@mdl("std::option::Option::zip")
def _(e, st, c):
    out = []
    for s, v in split_variant(e, st, c.args[0]) or []:
        for s2, w in split_variant(e, s, c.args[1]) or []:
            out.append((s2, some(("tup", (v[4][0], w[4][0]))) if v[3] == w[3] == "Some" else NONE))
    return out or None


@mdl("smallvec::SmallVec::into_iter", "std::iter::once", "std::iter::empty")
def _(e, st, c):
    if opname(c) == "once":
        return [(st, mk_iter([c.args[0]]))]
    if opname(c) == "empty":
        return [(st, mk_iter([]))]
    return m_into_iter(e, st, c)


# ---- vec![..], CString ---------------------------------------------------------------------------------------
@mdl("std::boxed::Box::new_uninit")
def _(e, st, c):
    return [(st, e.new_cell(st, ("un",)))]


@mdl("std::boxed::box_assume_init_into_vec_unsafe")
def _(e, st, c):
    v = e.load(st, *e.deref(st, c.args[0]))
    n = 0
    while v[0] == "tup" and n < 6:          # MaybeUninit { value: ManuallyDrop { value } }
        w = [x for x in v[1] if x != ("un",)]
        if len(w) != 1:
            return None
        v = e.res(st, w[0])
        n += 1
    return [(st, v)] if v[0] == "arr" else None


@mdl("std::vec::from_elem")
def _(e, st, c):
    n = e.res(st, c.args[1])
    if n[0] != "i" or n[1] > 4096:
        return None
    return [(st, ("arr", (c.args[0],) * n[1]))]


@mdl("std::string::String::new")
def _(e, st, c):
    return [(st, ("s", ""))]


@mdl("std::ffi::CString::new", "alloc::ffi::CString::new")
def _(e, st, c):
    v = e.through(st, c.args[0])
    if v[0] == "s":
        bs = v[1].encode()
    elif v[0] == "b":
        bs = bytes(v[1])
    else:
        return None
    if 0 in bs:
        return [(st, err(("sym", "nul-error", ("adt", "std::ffi::NulError", ()))))]
    return [(st, ok(("adt", "$CString", 0, "", (("arr", tuple(("i", b, "u8") for b in bs)),))))]


@mdl("std::ffi::CString::as_bytes_with_nul", "std::ffi::CString::as_bytes", "std::ffi::CString::into_bytes", "std::ffi::CString::into_bytes_with_nul",
     "alloc::ffi::CString::as_bytes_with_nul", "alloc::ffi::CString::as_bytes")
def _(e, st, c):
    v = e.through(st, c.args[0])
    if v[0] != "adt" or v[1] != "$CString":
        return None
    bs = v[4][0][1]
    if "with_nul" in opname(c):
        bs = bs + (("i", 0, "u8"),)
    if "as_" in opname(c):
        return [(st, e.new_cell(st, ("arr", bs)))]
    return [(st, ("arr", bs))]


# ---- integer ranges ---------------------------------------------------------------------------------------------
def _irange(t):
    b = BITS.get(t)
    if b is None:
        return None
    return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if t[0] == "i" else (0, (1 << b) - 1)


def assume(st, term, val):
    """the partition in which a boolean term has the given truth value, or None"""
    if term[0] == "i":
        return st if bool(term[1]) == val else None
    known = st.pc.get(term)
    if known is not None and known[0] == "=":
        return st if bool(known[1]) == val else None
    s = st.fork()
    s.pc[term] = ("=", int(val))
    return s


def within(e, st, v, lo, hi, t):
    """[(state, in range)] for an integer value and constant bounds"""
    if v[0] == "i":
        return [(st, lo <= v[1] <= hi)]
    bl = ("prim", "bool")
    a = e.binop("Ge", v, ("i", lo, t), ("prim", t))
    b = e.binop("Le", v, ("i", hi, t), ("prim", t))
    out = []
    s = assume(st, a, False)
    if s:
        out.append((s, False))
    s = assume(st, a, True)
    if s:
        s2 = assume(s, b, False)
        if s2:
            out.append((s2, False))
        s2 = assume(s, b, True)
        if s2:
            out.append((s2, True))
    return out


@mdl("std::convert::TryFrom::try_from", "std::convert::TryInto::try_into")
def _(e, st, c):
    if len(c.targs) < 2 or c.targs[0][0] != "prim" or c.targs[1][0] != "prim":
        return None
    src, dst = (c.targs[1][1], c.targs[0][1]) if c.m == "try_from" or "TryFrom" in c.d else (c.targs[0][1], c.targs[1][1])
    a, b = _irange(src), _irange(dst)
    if a is None or b is None:
        return None
    v = c.args[0]
    out = []
    for s, good in within(e, st, v, b[0], b[1], src):
        x = ("i", v[1], dst) if v[0] == "i" else v if a[0] >= b[0] and a[1] <= b[1] and BITS[src] == BITS[dst] else ("app", "as:" + dst, (v,), ("prim", dst))
        out.append((s, ok(x) if good else err(("app", "TryFromIntError", (v,), ("?",)))))
    return out


@mdl("std::ops::RangeInclusive::contains", "std::ops::Range::contains")
def _(e, st, c):
    r = e.through(st, c.args[0])
    v = e.through(st, c.args[1])
    if r[0] != "adt" or len(r[4]) < 2:
        return None
    lo, hi = e.through(st, r[4][0]), e.through(st, r[4][1])
    if lo[0] != "i" or hi[0] != "i":
        return None
    return [(s, B(b)) for s, b in within(e, st, v, lo[1], hi[1] - ("Inclusive" not in c.d), lo[2])]


@mdl("std::ops::RangeInclusive::new")
def _(e, st, c):
    return [(st, ("adt", "std::ops::RangeInclusive", 0, "", (c.args[0], c.args[1], B(False))))]


@mdl("core::num::<impl usize>::next_power_of_two", "core::num::<impl u32>::next_power_of_two", "core::num::<impl u64>::next_power_of_two")
def _(e, st, c):
    v = e.res(st, c.args[0])
    if v[0] != "i":
        return None
    n = 1
    while n < v[1]:
        n *= 2
    return [(st, ("i", n, v[2]))]


@mdl("std::array::<impl [T; N]>::as_slice", "core::array::<impl [T; N]>::as_slice")
def _(e, st, c):
    return [(st, c.args[0])]


@mdl("<std::string::String as std::ops::Deref>::deref", "<std::string::String as std::ops::DerefMut>::deref_mut")
def _(e, st, c):
    v = c.args[0]
    if v[0] == "s":
        return [(st, v)]
    if v[0] != "ref":
        return None
    x = e.load(st, v[1], v[2])
    return [(st, x if x[0] == "s" else v)]


@mdl("f64::to_bits", "f32::to_bits", "core::f64::<impl f64>::to_bits", "core::f32::<impl f32>::to_bits", "std::f64::<impl f64>::to_bits", "std::f32::<impl f32>::to_bits",
     "core::num::<impl f64>::to_bits", "core::num::<impl f32>::to_bits")
def _(e, st, c):
    v = e.res(st, c.args[0])
    if v[0] == "i" and v[2] in ("f32", "f64"):
        return [(st, ("i", v[1], "u" + v[2][1:]))]
    return None


@mdl("ordered_float::OrderedFloat::into_inner")
def _(e, st, c):
    v = e.res(st, c.args[0])
    return [(st, v[4][0])] if v[0] == "adt" else None


@mdl("std::mem::size_of", "std::mem::align_of", "core::mem::size_of", "core::mem::align_of")
def m_sizeof(e, st, c):
    l = facts.rust_layout(e.mir, c.targs[0]) if c.targs else None
    if l is None:
        return None
    return [(st, I(l[0] if opname(c) == "size_of" else l[1], "usize"))]


@mdl("std::cmp::Ord::cmp", "std::cmp::PartialOrd::partial_cmp")
def m_cmp(e, st, c):
    if c.path in e.mir.fns:
        return None
    a, b = e.through(st, c.args[0]), e.through(st, c.args[1])
    if a[0] == "i" and b[0] == "i" and a[2] == b[2] and a[2] not in ("f32", "f64"):
        k = 0 if a[1] < b[1] else (1 if a[1] == b[1] else 2)
        o = ("adt", "std::cmp::Ordering", k, ("Less", "Equal", "Greater")[k], ())
        return [(st, o if opname(c) == "cmp" else some(o))]
    return None


def ordering(e, st, a, b, depth):
    """[(state, -1 | 0 | 1)] by the implementation the type has in the crate, None if that is not known"""
    v = e.through(st, a)
    if v[0] != "adt" or e.through(st, b)[0] != "adt":
        return None
    f = "<%s as std::cmp::PartialOrd>::partial_cmp" % v[1]
    if f not in e.mir.fns:
        return None
    ref = lambda x: x if x[0] == "ref" else e.new_cell(st, x)
    out = []
    for s, r in e.call_fn(st, f, [ref(a), ref(b)], depth=depth + 1):
        r = e.res(s, r)
        if r[0] != "adt" or r[3] != "Some" or e.res(s, r[4][0])[0] != "adt":
            return None
        out.append((s, {"Less": -1, "Equal": 0, "Greater": 1}[e.res(s, r[4][0])[3]]))
    return out


@mdl("std::cmp::PartialOrd::lt", "std::cmp::PartialOrd::le", "std::cmp::PartialOrd::gt", "std::cmp::PartialOrd::ge")
def _(e, st, c):
    if c.path in e.mir.fns:
        return None
    r = ordering(e, st, c.args[0], c.args[1], c.depth)
    ok = {"lt": (-1,), "le": (-1, 0), "gt": (1,), "ge": (0, 1)}[opname(c)]
    return r and [(s, B(k in ok)) for s, k in r]


@mdl("std::f32::<impl f32>::powi", "std::f64::<impl f64>::powi", "core::f32::<impl f32>::powi", "core::f64::<impl f64>::powi")
def m_powi(e, st, c):
    x, n = e.res(st, c.args[0]), e.res(st, c.args[1])
    if x[0] == "i" and n[0] == "i" and x == float_cast(I(2, "i32"), x[2]) and -100 < n[1] < 100:
        return [(st, float_cast(I(1 << n[1], "i128"), x[2]) if n[1] >= 0 else float_cast(("i", struct.unpack("<Q", struct.pack("<d", 2.0 ** n[1]))[0], "f64"), x[2]))]
    return None


@mdl(*["%s::<impl %s>::%s" % (m, t, o) for m in ("std::f32", "std::f64", "core::f32", "core::f64") for t in ("f32", "f64") for o in ("log2", "ceil", "floor", "trunc", "sqrt", "round")])
def _(e, st, c):
    x = e.res(st, c.args[0])
    if x[0] != "i" or x[2] != "f64":
        return None
    f = struct.unpack("<d", struct.pack("<Q", x[1]))[0]
    o = c.d.split("::")[-1]
    try:
        r = {"log2": math.log2, "ceil": math.ceil, "floor": math.floor, "trunc": math.trunc, "sqrt": math.sqrt, "round": lambda z: math.copysign(math.floor(abs(z) + 0.5), z)}[o](f)
    except (ValueError, OverflowError):
        return None
    return [(st, ("i", struct.unpack("<Q", struct.pack("<d", float(r)))[0], "f64"))]


@it_op("find_position")
def _(e, st, c):
    out = []
    for s, items in items_of(e, st, c.args[0], c) or []:
        work, hits = [(s, 0)], []
        while work:
            s1, k = work.pop()
            if k == len(items):
                hits.append((s1, NONE))
                continue
            for s2, b in call_bool(e, s1, c.args[1], [e.new_cell(s1, items[k])], c.depth):
                if b:
                    hits.append((s2, some(("tup", (I(k, "usize"), items[k])))))
                else:
                    work.append((s2, k + 1))
        out += hits
    return out or None


@map_op("difference", "intersection", "union", "symmetric_difference")
def _(e, st, c):
    a, b = (e.through(st, x) for x in c.args[:2])
    if not all(x[0] == "map" and x[1] is None for x in (a, b)):
        return None
    ka, kb = ([e.snap(st, k) for k, _ in x[2]] for x in (a, b))
    o = opname(c)
    r = {"difference": [k for k in ka if k not in kb], "intersection": [k for k in ka if k in kb],
         "union": ka + [k for k in kb if k not in ka], "symmetric_difference": [k for k in ka if k not in kb] + [k for k in kb if k not in ka]}[o]
    return [(st, mk_iter([e.new_cell(st, x) for x in r]))]


@map_op("clear")
def _(e, st, c):
    cell, p = e.deref(st, c.args[0])
    e.store(st, cell, p, ("map", None, ()))
    return [(st, UNIT)]


@mdl("once_cell::unsync::OnceCell::new", "std::cell::OnceCell::new")
def _(e, st, c):
    return [(st, NONE)]


def int_method(o, t, x, ys):
    """the integer methods on constants: a value, None (the method gives None), or NotImplemented"""
    b, signed = BITS[t], t[0] == "i"
    u = x & ((1 << b) - 1)
    arith = {"add": lambda y: x + y, "sub": lambda y: x - y, "mul": lambda y: x * y, "pow": lambda y: x ** y,
             "div": lambda y: abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1), "rem": lambda y: x - abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1) * y,
             "neg": lambda: -x, "abs": lambda: abs(x)}
    if "_" in o and o.split("_", 1)[1] in arith and o.split("_", 1)[0] in ("checked", "wrapping", "saturating"):
        how, op = o.split("_", 1)
        if op in ("div", "rem") and ys[0] == 0:
            return None if how == "checked" else NotImplemented
        r = arith[op](*ys)
        n = norm(r, t)
        if how == "wrapping" or n == r:
            return ("i", n, t)
        if how == "checked":
            return None
        return ("i", (1 << (b - signed)) - 1 if r > 0 else -(1 << (b - 1)) if signed else 0, t)
    if o in ("wrapping_shl", "wrapping_shr", "checked_shl", "checked_shr"):
        if o[0] == "c" and ys[0] >= b:
            return None
        y = ys[0] & (b - 1)
        return ("i", norm(x << y if o.endswith("l") else x >> y, t), t)
    if o == "leading_zeros": return ("i", b - u.bit_length(), "u32")
    if o == "trailing_zeros": return ("i", b if u == 0 else (u & -u).bit_length() - 1, "u32")
    if o == "count_ones": return ("i", bin(u).count("1"), "u32")
    if o == "ilog2" and x > 0: return ("i", x.bit_length() - 1, "u32")
    if o == "checked_ilog2": return ("i", x.bit_length() - 1, "u32") if x > 0 else None
    if o == "is_power_of_two": return B(bin(u).count("1") == 1)
    if o == "abs_diff": return ("i", abs(x - ys[0]), t.replace("i", "u", 1) if signed else t)
    if o == "unsigned_abs": return ("i", abs(x), t.replace("i", "u", 1))
    if o == "is_negative": return B(x < 0)
    if o == "is_positive": return B(x > 0)
    if o == "signum": return ("i", (x > 0) - (x < 0), t)
    if o == "div_ceil" and ys[0] > 0 and x >= 0: return ("i", -(-x // ys[0]), t)
    if o == "next_multiple_of" and ys[0] > 0 and x >= 0: return ("i", -(-x // ys[0]) * ys[0], t)
    if o == "is_multiple_of" and ys[0] > 0: return B(x % ys[0] == 0)
    if o == "pow" and norm(x ** ys[0], t) == x ** ys[0]: return ("i", x ** ys[0], t)
    if o == "abs" and norm(abs(x), t) == abs(x): return ("i", abs(x), t)
    if o in ("rem_euclid", "div_euclid") and ys[0] > 0: return ("i", x % ys[0] if o[0] == "r" else x // ys[0], t)
    return NotImplemented


def _int_models():
    syms = {"wrapping_add": "Add", "wrapping_sub": "Sub", "wrapping_mul": "Mul"}
    ops = ["%s_%s" % (h, o) for h in ("checked", "wrapping", "saturating") for o in ("add", "sub", "mul", "pow", "div", "rem", "neg", "abs")]
    ops += ["wrapping_shl", "wrapping_shr", "checked_shl", "checked_shr", "leading_zeros", "trailing_zeros", "count_ones", "ilog2", "checked_ilog2", "is_power_of_two",
            "abs_diff", "unsigned_abs", "is_negative", "is_positive", "signum", "div_ceil", "next_multiple_of", "is_multiple_of", "pow", "abs", "rem_euclid", "div_euclid"]
    for t in ("u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"):
        for o in ops:
            n = "core::num::<impl %s>::%s" % (t, o)

            def f(e, st, c, o=o, t=t):
                a = [e.res(st, e.through(st, x)) for x in c.args]
                if all(x[0] == "i" for x in a):
                    r = int_method(o, t, a[0][1], [x[1] for x in a[1:]])
                    if r is not NotImplemented:
                        return [(st, (NONE if r is None else some(r)) if o.startswith("checked") else r)]
                elif o in syms:
                    return [(st, e.binop(syms[o], a[0], a[1], ("prim", t)))]
                return None
            if n not in MODELS:
                mdl(n)(f)


_int_models()


@seq_op("front", "back", "front_mut", "back_mut")
def _(e, st, c):
    cell, p, v = seq_at(e, st, c)
    if v[0] != "arr":
        return None
    k = 0 if opname(c).startswith("front") else len(v[1]) - 1
    return [(st, some(("ref", cell, p + (("i", I(k, "usize")),))) if v[1] else NONE)]
