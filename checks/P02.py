"""Module build scheduler: order, publication and completeness over all import graphs, failures and start orders."""
import itertools
from facts import Mir, tstr
from absint import *

LEVEL = "other"
PAR = "llrl::module::parallel::"
PATH = "llrl::path::"
SRC = "llrl::source::Source"
STRONG = ("AcqRel", "SeqCst")


def string(s):
    return ("s", s)


def path_value(pkg, mod):
    return ("adt", PATH + "Path", 0, "", (("adt", PATH + "PackageName", 0, "", (some(string(pkg)),)),
                                         ("adt", PATH + "ModuleName", 0, "", (("arr", tuple(string(m) for m in mod)),))))


class Machine:
    """Hooks giving thread-pool, atomics and lock operations their meaning; modules carry a typestate."""

    def __init__(self, ck, mir, graph, orders):
        self.ck, self.mir, self.graph, self.orders = ck, mir, graph, orders
        self.bad = []

    def fail(self, key, text):
        self.bad.append((key, text))

    def ordering(self, e, st, v):
        v = e.res(st, v)
        return v[3] if v[0] == "adt" else show(v)

    def hooks(self, e, st, c):
        d = strip_generics(c.d)
        last = d.split("::")[-1]
        if d == "rayon::scope" or d == "rayon::in_place_scope":
            sc = e.new_cell(st, ("sym", "scope", ("?",)))
            out = []
            self.scope = sc
            st.notes["inscope"] = 1
            for s, v in e.call_value(st, c.args[0], [sc], depth=c.depth):
                for s2 in self.drain(e, s, sc, c.depth):
                    s2.notes["inscope"] = 0
                    out.append((s2, v))
            return out
        if d in ("rayon::Scope::spawn", "rayon::spawn", "rayon::Scope::spawn_fifo"):
            if not st.notes.get("inscope"):
                self.fail("spawn", "a build task is spawned outside the scope that waits for it")
            task = c.args[-1]
            # the task may run at once, before its spawner continues, or at any later time
            a, b = st, st.fork()
            b.notes["pool"] = b.notes.get("pool", ()) + (task,)
            out = [(b, UNIT)]
            if self.orders:
                for s, _ in e.call_value(a, task, [c.args[0]], depth=c.depth):
                    out.append((s, UNIT))
            return out
        if d.startswith("std::sync::atomic::Atomic"):
            if last == "new":
                return [(st, ("adt", "$Atomic", 0, "", (c.args[0],)))]
            if last in ("into_inner",):
                return [(st, e.res(st, c.args[0])[4][0])]
            cell, p = e.deref(st, c.args[0])
            v = e.load(st, cell, p)
            if v[0] != "adt" or v[1] != "$Atomic":
                return None
            if last in ("get_mut",):
                return [(st, ("ref", cell, p + (("f", 0, "0", ("?",)),)))]
            if last in ("fetch_add", "fetch_sub"):
                if st.notes.get("inscope") and last == "fetch_sub":
                    o = self.ordering(e, st, c.args[2])
                    if o not in STRONG:
                        self.fail("ordering", "the counter that releases a module is decremented with ordering %s: the results of its imports need not be visible" % o)
                old = v[4][0]
                new = e.binop("Add" if last == "fetch_add" else "Sub", old, c.args[1], ("prim", "u32"))
                e.store(st, cell, p, v[:4] + ((new,),))
                self.ck.count("counter operations")
                return [(st, old)]
            if last == "load":
                out = [(st, v[4][0])]
                if st.notes.get("inscope"):     # another task may run between this read and what is done with it
                    pool = st.notes.get("pool", ())
                    for i in range(len(pool)):
                        t = st.fork()
                        t.notes["pool"] = pool[:i] + pool[i + 1:]
                        for s2, _ in e.call_value(t, pool[i], [self.scope], depth=c.depth + 1):
                            out.append((s2, v[4][0]))
                return out
            if last in ("store", "swap"):
                if st.notes.get("inscope"):
                    self.fail("rmw", "a dependency counter is overwritten (%s) while build tasks run: concurrent decrements are lost" % last)
                e.store(st, cell, p, v[:4] + ((c.args[1],),))
                return [(st, v[4][0] if last == "swap" else UNIT)]
            return None
        if d in ("std::sync::RwLock::new", "std::sync::Mutex::new", "std::cell::RefCell::new", "std::cell::Cell::new"):
            return [(st, ("adt", "$Lock", 0, "", (c.args[0],)))]
        if d.startswith(("std::sync::RwLock::", "std::sync::Mutex::", "std::cell::RefCell::", "std::sync::poison::")) and last in ("write", "read", "lock", "borrow", "borrow_mut", "get_mut", "into_inner"):
            if last == "into_inner":
                v = e.res(st, c.args[0])
                if v[0] == "adt" and v[1] == "$Lock":
                    return [(st, ok(v[4][0]) if "Cell" not in d else v[4][0])]
                return None
            cell, p = e.deref(st, c.args[0])
            v = e.load(st, cell, p)
            if v[0] != "adt" or v[1] != "$Lock":
                return None
            r = ("ref", cell, p + (("f", 0, "0", ("?",)),))
            return [(st, r if "Cell" in d else ok(r))]
        if d == "typed_arena::Arena::new":
            return [(st, ("adt", "$Arena", 0, "", ()))]
        if d == "typed_arena::Arena::alloc":
            return [(st, e.new_cell(st, c.args[1]))]
        if d == "llrl::module::Module::build":
            return self.build(e, st, c)
        if c.tr == PAR + "Backend" and c.m == "add_module":
            return self.add_module(e, st, c)
        if last == "partition_map":
            return self.partition(e, st, c)
        if d.endswith("report::Report::on"):
            return e.call_value(st, c.args[2], [], depth=c.depth)
        if d.endswith("report::Report::merge") or d == "llrl::module::Module::report":
            return [(st, ("sym", "report", ("?",)))]
        if d in ("std::iter::Iterator::all",):
            return [(st, B(True))]
        return None

    def drain(self, e, st, sc, depth):
        """Every completion order of the tasks left in the pool."""
        done, work = [], [st]
        while work:
            s = work.pop()
            pool = s.notes.get("pool", ())
            if not pool:
                done.append(s)
                continue
            n = len(pool) if self.orders else 1
            for i in range(n):
                t = s.fork() if n > 1 else s
                t.notes["pool"] = pool[:i] + pool[i + 1:]
                for s2, _ in e.call_value(t, pool[i], [sc], depth=depth + 1):
                    work.append(s2)
        return done

    # ---- events
    def index(self, e, st, v):
        v = e.snap(st, e.through(st, v))
        while v[0] == "adt" and len(v[4]) == 1:
            v = v[4][0]
        return v[1] if v[0] == "i" else None

    def build(self, e, st, c):
        mid = self.index(e, st, c.args[0])
        src = e.snap(st, e.through(st, c.args[1]))
        ev = st.notes.get("ev", ())
        if mid is None or mid >= len(self.graph):
            self.fail("mid", "a module is built under an unknown id: %s" % show(e.snap(st, c.args[0])))
            return []
        self.ck.count("module builds analysed")
        if src != self.sources[mid]:
            self.fail("source", "module %d is built from the source of another module" % mid)
        if ("build", mid) in ev:
            self.fail("twice", "a module is built twice")
        for k in self.graph[mid]:
            if ("ok", k) not in ev:
                self.fail("early", "a module is built before an import of it has been built successfully (graph %s, events %s)" % (self.graph, ev))
            elif ("add", k) not in ev:
                self.fail("unregistered", "a module is built before the code of its import is registered with the backend")
        # what the analysis of the module sees of its imports
        ext_t = c.targs[-1] if c.targs else ("?",)
        for k in self.graph[mid]:
            if ("ok", k) not in ev:
                continue
            for how, arg in (("find_module", e.new_cell(st, self.paths[k])), ("module", ("adt", self.mid_adt, 0, "", (I(k, "u32"),)))):
                s = st.fork()
                n0 = len(e.panics)
                try:
                    rs = e.call_path(s, "llrl::module::External::" + how, (ext_t,), [c.args[2], arg], ("?",), c.depth, tr="llrl::module::External", m=how)
                except Panic:
                    rs = []
                del e.panics[n0:]
                for s2, v in rs:
                    v = e.res(s2, v)
                    if how == "find_module":
                        v = v[4][0] if v[0] == "adt" and v[3] == "Some" else v
                    v = e.snap(s2, v)
                    if v != ("sym", "built%d" % k, ("adt", "llrl::module::Module", ())):
                        self.fail("visible", "an imported module's result is not what %s returns: %s" % (how, show(v)))
                if not rs:
                    self.fail("visible", "an imported module's result is not visible through %s when its importer is built" % how)
        good, bad = st, st.fork()
        good.notes["ev"] = ev + (("build", mid), ("ok", mid))
        bad.notes["ev"] = ev + (("build", mid), ("err", mid))
        out = [(bad, err(("sym", "error%d" % mid, ("?",)))), (good, ok(("sym", "built%d" % mid, ("adt", "llrl::module::Module", ()))))]
        return out if mid in self.may_fail else out[1:]

    def add_module(self, e, st, c):
        m = e.snap(st, e.through(st, c.args[1]))
        ev = st.notes.get("ev", ())
        if not (m[0] == "sym" and m[1].startswith("built")):
            self.fail("add", "something other than a built module is registered: %s" % show(m))
            return [(st, UNIT)]
        k = int(m[1][5:])
        if ("add", k) in ev:
            self.fail("addtwice", "a module is registered twice")
        st.notes["ev"] = ev + (("add", k),)
        flag = e.res(st, c.args[2])
        term = ("app", "has_key", (("sym", "entries", self.entries_ty), ("sym", m[1] + ".path", ("adt", PATH + "Path", ()))), ("prim", "bool"))
        got = st.pc.get(term)
        if flag[0] != "i" or got is None or got != ("=", flag[1]):
            self.fail("entry", "the entry-point flag given to the backend is not whether the module's path is an entry point: %s" % show(flag))
        return [(st, UNIT)]

    def partition(self, e, st, c):
        it = e.res(st, c.args[0])
        if it[0] != "adt" or it[1] not in ("$It", "$Map"):
            return None
        out = []
        for s, items in drain_iter(e, st, it, c):
            work = [(s, (), ())]
            for x in items:
                nxt = []
                for s1, l, r in work:
                    for s2, v in e.call_value(s1, c.args[1], [x], depth=c.depth):
                        v = e.res(s2, v)
                        if v[3] == "Left":
                            nxt.append((s2, l + (v[4][0],), r))
                        else:
                            nxt.append((s2, l, r + (v[4][0],)))
                work = nxt
            out += [(s1, ("tup", (("arr", l), ("arr", r)))) for s1, l, r in work]
        return out


def graphs(n):
    """All import graphs on n modules in dependency order; module 0 (builtin) is imported by every other one."""
    pairs = [(i, j) for j in range(1, n) for i in range(1, j)]
    for bits in itertools.product((0, 1), repeat=len(pairs)):
        g = {0: []}
        for j in range(1, n):
            g[j] = [0] + [i for (i, k), b in zip(pairs, bits) if b and k == j]
        yield g


def run(ck, mir, graph, may_fail, orders):
    n = len(graph)
    mc = Machine(ck, mir, graph, orders)
    mc.may_fail = may_fail
    S = mir.adts[SRC]["variants"][0]["fields"]
    paths = [path_value("builtin", ())] + [path_value("std" if k == 1 else "p", ("m%d" % k,) if k != 1 else ()) for k in range(1, n)]
    mc.paths = paths
    bf = mir.fns[PAR + "build"]
    mc.entries_ty = mir.ty(bf["crate"], bf["locals"][2][0])
    mc.mid_adt = next(p for p in mir.adts if p.endswith("::ModuleId"))
    mc.sources = []
    for k in range(n):
        deps = tuple((string("d%d" % i), paths[i]) for i in graph[k]) + ((string("gone"), path_value("gone", ())),) * (1 if k == n - 1 else 0)
        fs = []
        for f in S:
            t = mir.ty("llrl", f["t"])
            if f["n"] == "path":
                fs.append(paths[k])
            elif f["n"] == "dependencies":
                fs.append(("map", None, deps))
            elif f["n"] == "implicit_std":
                fs.append(B(False))
            else:
                fs.append(("sym", "src%d.%s" % (k, f["n"]), t))
        mc.sources.append(("adt", SRC, 0, "", tuple(fs)))
    e = Engine(mir, mc.hooks, max_paths=200000)
    st = State()
    args = [("arr", tuple(mc.sources)), e.new_cell(st, ("sym", "entries", mc.entries_ty)), ("sym", "backend", ("?",)), e.new_cell(st, ("sym", "report", ("?",)))]
    entries_by_value = mc.entries_ty[0] != "ref"
    if entries_by_value:
        args[1] = ("sym", "entries", mc.entries_ty)
    rs = e.call_fn(st, PAR + "build", args, (("prim", "()"),) if False else (("param", 0, "B"),))
    gtxt = "imports " + ", ".join("%d->%s" % (k, graph[k]) for k in range(1, n))
    for s, v in rs:
        ck.count("schedules analysed")
        ev = s.notes.get("ev", ())
        okd = {k for t, k in ev if t == "ok"}
        errd = {k for t, k in ev if t == "err"}
        want = set()
        for k in range(n):
            if all(i in okd for i in graph[k]):
                want.add(k)
        if want != okd | errd:
            mc.fail("complete", "modules %s must be built and %s were (%s; failed %s)" % (sorted(want), sorted(okd | errd), gtxt, sorted(errd)))
        if {k for t, k in ev if t == "add"} != okd:
            mc.fail("registered", "built modules %s, registered %s" % (sorted(okd), sorted(k for t, k in ev if t == "add")))
        v = e.snap(s, v)
        if v[0] != "tup" or v[1][0][0] != "arr" or v[1][1][0] != "arr":
            mc.fail("result", "result of the build is %s" % show(v))
            continue
        left = sorted(show(x) for x in v[1][0][1])
        if left != sorted("built%d" % k for k in okd):
            mc.fail("result", "successful modules returned: %s, built: %s" % (left, sorted(okd)))
        right = {}
        for x in v[1][1][1]:
            if x[0] == "tup" and x[1][0] in mc.sources:
                right[mc.sources.index(x[1][0])] = x[1][1]
        if set(right) != set(range(n)) - okd or len(v[1][1][1]) != len(right):
            mc.fail("errors", "modules reported as failed: %s, not built: %s" % (sorted(right), sorted(set(range(n)) - okd)))
        for k, x in right.items():
            if k in errd and x != ("sym", "error%d" % k, ("?",)):
                mc.fail("error", "the error of a failed module is reported as %s" % show(x))
            if k not in errd and not (x[0] == "adt" and x[3] == "DependentModuleBuildFailed"):
                mc.fail("error", "a module that was not built because of its imports is reported as %s" % show(x))
    if e.panics:
        mc.fail("panic", "the scheduler can panic: %s" % (e.panics[0][1:],))
    if e.cuts:
        mc.fail("cut", "a loop of the scheduler could not be followed in %s" % e.cuts[0][1])
    ck.oblige(bool(rs), "noresult", "no path of the module build returns")
    ck.count("import graphs x failure sets")
    seen = set()
    ck.obligations += len(rs)
    ck.discharged += len(rs) if not mc.bad else 0
    for k, t in mc.bad:
        if k not in seen:
            seen.add(k)
            ck.violate("schedule:" + k, "%s [%s]" % (t, gtxt))


SS = "llrl::source::set::SourceSet"


def source_value(mir, k, deps, name):
    fs = []
    for f in mir.adts[SRC]["variants"][0]["fields"]:
        if f["n"] == "path":
            fs.append(name(k))
        elif f["n"] == "dependencies":
            fs.append(("map", None, tuple((string("d%d" % i), name(i)) for i in deps)))
        else:
            fs.append(("sym", "src%d.%s" % (k, f["n"]), mir.ty("llrl", f["t"])))
    return ("adt", SRC, 0, "", tuple(fs))


def cyclic(g):
    seen = {}

    def go(k):
        if seen.get(k) == 1:
            return True
        if seen.get(k) == 2:
            return False
        seen[k] = 1
        r = any(go(i) for i in g[k] if i in g)
        seen[k] = 2
        return r
    return any(go(k) for k in g)


def ordering(ck, mir, n, stride):
    """resolve_dependencies_order on every labelled import graph: dependencies first, each source once, cycles refused."""
    pairs = [(i, j) for i in range(n) for j in range(n) if i != j]
    name = lambda k: path_value("p", ("m%d" % k,))
    for num in range(0, 1 << len(pairs), stride):
        g = {k: [j for b, (i, j) in enumerate(pairs) if i == k and num >> b & 1] for k in range(n)}
        srcs = [source_value(mir, k, g[k] + ([99] if k == 0 else []), name) for k in range(n)]
        fld = mir.adts[SS]["variants"][0]["fields"]
        inner = ("map", None, tuple((name(k)[4][1], srcs[k]) for k in range(n)))
        ss = ("adt", SS, 0, "", tuple(("map", None, ((name(0)[4][0], inner),)) for _ in fld))
        e = Engine(mir, None)
        rs = e.call_fn(State(), SS + "::resolve_dependencies_order", [ss])
        ck.count("import graphs ordered")
        txt = "imports " + ", ".join("%d->%s" % kv for kv in g.items())
        if e.panics or e.cuts or not rs:
            ck.violate("order:follow", "ordering the sources does not return on a path (%s)" % txt)
            return
        cyc = cyclic(g)
        for s, v in rs:
            v = e.snap(s, v)
            if cyc:
                good = v[3] == "Err" and v[4][0][0] == "arr" and len(v[4][0][1]) > 1
                if not ck.oblige(good, "order:cycle", "an import cycle is accepted (%s): %s" % (txt, show(v)[:300])):
                    return
                continue
            if not ck.oblige(v[3] == "Ok" and sorted(map(str, v[4][0][1])) == sorted(map(str, srcs)), "order:all", "ordering changed the set of sources (%s): %s" % (txt, show(v)[:300])):
                return
            pos = {srcs.index(x): i for i, x in enumerate(v[4][0][1])}
            bad = [(i, j) for i in g for j in g[i] if pos[j] > pos[i]]
            if not ck.oblige(not bad, "order:deps", "a module is placed before a module it imports (%s): %s" % (txt, sorted(pos, key=pos.get))):
                return


def check(ck):
    ck.rule("The module-build scheduler is interpreted abstractly (atomics, locks and task spawning by their contracts, module builds as nondeterministic success/failure): on every path, for every import graph over the analysed module set, every failure set and every start order including a task running before its spawner continues, each module follows the typestate waiting -> (all imports registered and published) -> built once -> registered -> published, and the returned sets are exactly the built modules and the errors of the others.")
    mir = Mir(["llrl"])
    for g in graphs(4):
        run(ck, mir, g, set(range(4)), True)
        if ck.violations:
            return
    if ck.tier == "thorough":
        for g in graphs(5):
            run(ck, mir, g, set(), True)
    ck.floor("import graphs x failure sets", 8)
    ck.floor("schedules analysed", 50)
    ck.floor("module builds analysed", 50)
    ordering(ck, mir, 3, 1)
    ordering(ck, mir, 4, 1 if ck.tier == "thorough" else 13)
    ck.floor("import graphs ordered", 64 + 300)
    # who may build modules: only the scheduler
    for n, f in mir.fns.items():
        for b in f["blocks"]:
            t = b["t"]
            if t[0] == "call" and isinstance(t[1], dict) and t[1].get("d") == "llrl::module::Module::build":
                ck.count("call sites of the module build")
                ck.oblige(n.startswith(PAR), "caller:" + n, "%s builds a module outside the scheduler" % n)
    ck.floor("call sites of the module build", 1)
