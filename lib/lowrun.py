"""Runs the cases of lowcases over the lowering passes, in parallel."""
import multiprocessing, os, resource, signal, traceback
import absint, lower, lowcases, lowspec

LO = CASES = None
ENDLESS = multiprocessing.Value("i", 0)


def one(i):
    """(case, findings [(kind, text)], obligations {what: n})"""
    name, defs, steps = CASES[i]
    n = dict(paths=0, typed=0, definitions=0)
    found = []
    try:
        r = lower.Run(LO, defs, 200, 1000)
        src = dict(defs)
        dst = {}
        for s, (ty, term) in enumerate(steps):
            at = "" if len(steps) == 1 else " (statement %d)" % (s + 1)
            (dty, dterm), new = r.step(ty, term)
            for j, d in new:
                if j in dst:
                    found.append(("emit", "#%d is handed over a second time%s" % (j, at)))
                dst[j] = d
            n["definitions"] += len(new)
            t = lowspec.Types(dst)
            for j, d in new:
                t.definition(j, d)
            t.init(dty, dterm)
            n["typed"] += t.n
            found += [("form", x + at) for x in t.found]
            sp = lowspec.paths(src, True, term)
            dp = lowspec.paths(dst, False, dterm)
            diff, k = lowspec.compare(sp, dp)
            n["paths"] += k
            found += [("meaning", x + at) for x in diff]
        if ":C:" in name:
            for c, d in defs:
                if d[0] == "data" and d[1] == "C" and not any(x[0] == "struct" and x[1] == "C" and len(x[2]) == len(d[2][0]) and all(a == b or not isinstance(b, str) for a, b in zip(x[2], d[2][0])) for x in dst.values()):
                    found.append(("form", "no struct of C representation with the fields of c-data #%d in order is handed over" % c))
    except lower.Panic as x:
        found.append(("panic", str(x)))
    except (lower.Low, absint.Stop, KeyError, ValueError, TypeError, NotImplementedError, AttributeError, IndexError, RecursionError, lowspec.Bad) as x:
        found.append(("unanalysed", "%s: %s" % (type(x).__name__, str(x)[:300]) + ("" if os.environ.get("LOWDBG") is None else traceback.format_exc()[-1500:])))
    return i, found, n


class Late(Exception):
    pass


def late(*_):
    raise Late()


def limits():
    """a pass that does not end on some program is reported, not waited for"""
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    signal.signal(signal.SIGALRM, late)


def bounded(i):
    signal.alarm(60 if ENDLESS.value < 3 else 8)
    try:
        return one(i)
    except (MemoryError, Late):
        ENDLESS.value += 1
        return i, [("endless", "the passes (or their analysis) do not come to an end")], dict(paths=0, typed=0, definitions=0)
    finally:
        signal.alarm(0)


def chunk(ix):
    return [bounded(i) for i in ix], sorted(LO.functions)


def run(cases, mir=None, procs=None):
    """[(name, findings, obligations)], analysed functions"""
    global LO, CASES
    LO = lower.Lowering(mir)
    CASES = cases
    n = procs or min(8, os.cpu_count() or 1)
    parts = [list(range(i, min(i + 4, len(cases)))) for i in range(0, len(cases), 4)]
    res, fns = {}, set()
    with multiprocessing.get_context("fork").Pool(n, limits) as p:
        for out, fs in p.imap_unordered(chunk, parts):
            fns.update(fs)
            for i, f, o in out:
                res[i] = (cases[i][0], f, o)
    return [res[i] for i in range(len(cases))], fns


def repeated(cases):
    """every statement handed in a second time: what the first time emitted must not be emitted again"""
    for name, defs, steps in cases:
        yield "twice:" + name, defs, list(steps) + list(steps)


def decide(ck, cases, mir=None):
    """runs the cases and reports per group and kind of finding"""
    cases = list(cases)
    res, fns = run(cases, mir)
    groups = {}
    for name, found, n in res:
        g = name.split(":")[0]
        ck.count(g + " programs")
        ck.count("pairs of paths compared", n["paths"])
        ck.count("typing obligations", n["typed"])
        ck.count("definitions emitted", n["definitions"])
        groups.setdefault(g, []).append((name, found))
    for g, rs in sorted(groups.items()):
        for kind in ("emit", "form", "meaning", "panic", "endless", "unanalysed"):
            bad = [(n, x) for n, f in rs for k, x in f if k == kind]
            ck.oblige(not bad, "%s:%s" % (g, kind), "%d of %d programs; %s" % (len({n for n, _ in bad}), len(rs), " | ".join("%s: %s" % (n, x[:400]) for n, x in bad[:3])))
        for n, f in rs:
            ck.oblige(not f, "%s:%s" % (g, f[0][0]) if f else n, "%s: %s" % (n, f[0][1][:300]) if f else "")
    own = {f for f in fns if f.startswith("llrl::lowering")}
    ck.count("functions analysed", len(own))
    return own
