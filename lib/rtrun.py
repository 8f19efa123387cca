"""Runs the cases of rtcases over the code generator, in parallel."""
import os, multiprocessing
from facts import Mir
import chibi, terms as T, rtcases as RC, rtspec as R

CG = None
CASES = None
BE = chibi                                  # the back end under analysis: chibi or llvmb


def mk_case(name, params, ret, body, sigs, ptr, f):
    defs = {}
    RC.types_in(body, defs)
    RC.types_in(params, defs)
    RC.types_in(ret, defs)
    RC.types_in([list(s) for s in sigs.values()], defs)
    types = R.Types(defs)
    ss = {}
    for k, v in sigs.items():
        if isinstance(k, tuple) and k[0] == "callee-of":
            i = k[1]
            if i not in ptr:
                continue
            val = R.fresh(types, f.kids[i], ptr[i])
            ss[T.mk(val[:8])] = v
        else:
            ss[k] = v
    c = chibi.Case(name, params, ret, body, ss, defs)
    c.group = f.group
    return c


def mk_fn(name, params, ret, body, sigs, env=None, kind="Standard"):
    defs = {}
    for x in (body, params, ret, [list(s) for s in sigs.values()], env):
        RC.types_in(x, defs)
    types = R.Types(defs)
    ss = {}
    for k, v in sigs.items():
        if isinstance(k, tuple) and k[0] == "callee-of":
            ss[T.mk(R.fresh(types, k[2], k[1] + "#0")[:8])] = v
        else:
            ss[k] = v
    c = chibi.Case(name, params, ret, body, ss, defs, env=env, kind=kind)
    c.group = "fn"
    return c


def fn_cases():
    return RC.env_pairs(mk_fn) + RC.kinds(mk_fn)


def scope_cases(deep=False):
    out = RC.scopes(mk_fn, deep)
    for c in out:
        c.group = "scope"
    return out


def pair(p):
    """the user of an environment finds what its maker put there"""
    slots = BE.env_slots(CG, p.user)
    d, info = BE.check(CG, p.user, slots)
    out = [(k, "%s: %s" % (p.user.name, t)) for k, t in d]
    np, ni = (info["paths"], info["insts"]) if info else (0, 0)
    for m in p.maker:
        m.envslots = {p.key: slots}
        d, info = BE.check(CG, m)
        out += [(k, "%s: %s" % (m.name, t)) for k, t in d]
        np, ni = (np + info["paths"], ni + info["insts"]) if info else (np, ni)
    return out, {"paths": np, "insts": ni}


def one(i):
    c = CASES[i]
    try:
        d, info = pair(c) if isinstance(c, RC.Pair) else BE.check(CG, c)
    except (chibi.Emit, KeyError, IndexError, ValueError, TypeError, RecursionError, AttributeError, AssertionError) as x:
        d, info = [("emit", "%s: %s" % (type(x).__name__, str(x)[:300]))], None
    return i, d, (info["paths"], info["insts"]) if info else (0, 0), None


def chunk(ix):
    out = [one(i) for i in ix]
    return out, sorted(CG.functions)


def run(cases, mir=None, procs=None, be=chibi):
    """[(case, differences, paths, instructions)], functions of the code generator that were analysed"""
    global CG, CASES, BE
    BE = be
    CG = be.driver(mir)
    CASES = cases
    n = procs or min(8, os.cpu_count() or 1)
    ix = list(range(len(cases)))
    size = max(1, min(40, len(ix) // (4 * n) or 1))
    parts = [ix[k:k + size] for k in range(0, len(ix), size)]
    res, fns = {}, set()
    with multiprocessing.get_context("fork").Pool(n) as p:
        for out, fs in p.imap_unordered(chunk, parts):
            fns.update(fs)
            for i, d, (a, b), _ in out:
                res[i] = (cases[i], d, a, b)
    return [res[i] for i in ix], fns
