"""Failure of any stage, of the linker or of the compiled program reaches the exit status; no later stage runs after a failure."""
from facts import Mir, tstr
from absint import *

LEVEL = "other"
ANY = ("?",)


def S(n, t=ANY):
    return ("sym", n, t)


def mentions(v, t):
    if v == t:
        return True
    if isinstance(v, tuple):
        return any(mentions(x, t) for x in v)
    return False


def names(v, n):
    """Does the term mention the input called n?"""
    if isinstance(v, tuple):
        return (len(v) >= 2 and v[0] == "sym" and v[1] in (n, n + "*")) or any(names(x, n) for x in v)
    return False


def note(st, *ev):
    st.notes["ev"] = st.notes.get("ev", ()) + (ev,)


def evs(st, kind):
    return [x for x in st.notes.get("ev", ()) if x[0] == kind]


def arr(e, st, v):
    v = e.snap(st, e.through(st, v))
    while v[0] == "ref":
        v = e.snap(st, e.load(st, *e.deref(st, v)))
    return v


def command_hooks(e, st, c, d, last):
    """std::process::Command as a record (program, arguments); running it is an event."""
    if d == "std::process::Command::new":
        return [(st, ("adt", "$Cmd", 0, "", (arr(e, st, c.args[0]), ("arr", ()))))]
    if d.startswith("std::process::Command::"):
        if last in ("get_args", "get_program"):
            return None
        cell, p = e.deref(st, c.args[0])
        v = e.load(st, cell, p)
        if v[0] != "adt" or v[1] != "$Cmd":
            return None
        if last in ("arg", "args"):
            if last == "arg":
                xs = (arr(e, st, c.args[1]),)
            else:
                a = arr(e, st, c.args[1])
                if a[0] == "arr":
                    xs = tuple(arr(e, st, x) for x in a[1])
                elif a[0] == "adt" and a[1] == "$It":
                    xs = (("all", a),)
                else:
                    xs = (("all", a),)
            e.store(st, cell, p, v[:4] + ((v[4][0], ("arr", v[4][1][1] + xs)),))
            return [(st, c.args[0])]
        if last in ("status", "output", "spawn"):
            n = len(evs(st, "cmd"))
            b = st.fork()
            note(st, "cmd", last, v[4][0], v[4][1][1])
            note(b, "cmdfail", last, v[4][0], v[4][1][1])
            if last == "status":
                r = S("status%d" % n, ("adt", "std::process::ExitStatus", ()))
            elif last == "output":
                r = S("output%d" % n, ("adt", "std::process::Output", ()))
            else:
                r = S("child%d" % n, ("adt", "std::process::Child", ()))
            return [(st, ok(r)), (b, err(S("spawn-error")))]
        return [(st, c.args[0])]
    return None


# ------------------------------------------------------------------ A: the pipeline
def pipeline(ck, mir):
    P = "llrl::pipeline::Pipeline::run"
    import P02

    def source_set(errs):
        fld = mir.adts[P02.SS]["variants"][0]["fields"]
        srcs = []
        for k in range(2):
            fs = []
            for f in mir.adts[P02.SRC]["variants"][0]["fields"]:
                if f["n"] == "errors":
                    fs.append(("arr", (S("error%d" % k),) if k in errs else ()))
                elif f["n"] == "path":
                    fs.append(P02.path_value("p", ("m%d" % k,)))
                elif f["n"] == "dependencies":
                    fs.append(("map", None, ()))
                else:
                    fs.append(S("src%d.%s" % (k, f["n"]), mir.ty("llrl", f["t"])))
            srcs.append(("adt", P02.SRC, 0, "", tuple(fs)))
        inner = ("map", None, tuple((P02.path_value("p", ("m%d" % k,))[4][1], srcs[k]) for k in range(2)))
        return ("adt", P02.SS, 0, "", tuple(("map", None, ((P02.path_value("p", ())[4][0], inner),)) for _ in fld))

    def hooks(e, st, c):
        d = strip_generics(c.d)
        last = d.split("::")[-1]
        r = command_hooks(e, st, c, d, last)
        if r is not None:
            return r
        if d == "llrl::source::collector::collect":
            out = []
            for errs in ((), (0,), (1,), (0, 1)):
                s = st.fork()
                note(s, "stage", "load", not errs)
                out.append((s, source_set(errs)))
            return out
        if d == "llrl::source::set::SourceSet::resolve_dependencies_order":
            b = st.fork()
            note(st, "stage", "order", True)
            note(b, "stage", "order", False)
            return [(st, ok(S("ordered", ("adt", "std::vec::Vec", (("adt", P02.SRC, ()),))))), (b, err(S("cycle")))]
        if d == "llrl::module::parallel::build":
            b = st.fork()
            note(st, "stage", "build", True)
            note(b, "stage", "build", False)
            return [(st, ("tup", (("arr", (S("m0"),)), ("arr", ())))), (b, ("tup", (("arr", (S("m0"),)), ("arr", (("tup", (S("badsrc"), S("badmod"))),)))))]
        if d == "llrl::lowering::Lowerizer::new":
            return [(st, S("lowerizer"))]
        if d == "llrl::lowering::Lowerizer::complete":
            note(st, "stage", "lower", True)
            return [(st, S("backend"))]
        if c.m == "produce_executable":
            b = st.fork()
            note(st, "stage", "link", True, arr(e, st, c.args[1]))
            note(b, "stage", "link", False, arr(e, st, c.args[1]))
            return [(st, ok(UNIT)), (b, err(S("link-error")))]
        if d.startswith("llrl::report::Report::") or d.startswith("<llrl::report::Report"):
            if last == "on":
                return None
            return [(st, UNIT if last not in ("new", "default", "clone") else S("report"))]
        if d == "std::process::exit":
            note(st, "exit", arr(e, st, c.args[0]))
            return []
        return None

    for run_args in (False, True):
        e = Engine(mir, hooks)
        f = mir.fns[P]
        st = State()
        ra = some(S("the-args")) if run_args else NONE
        args = []
        for i in range(len(f["locals"])):
            if i >= f.get("argc", 3):
                break
            t = mir.ty(f["crate"], f["locals"][i + 1][0])
            args.append(ra if t[0] == "adt" and t[1].endswith("option::Option") else S("arg%d" % i, t))
        rs = e.call_fn(st, P, args[:3], (("param", 0, "B"),))
        ck.count("pipeline paths", len(rs))
        if e.cuts:
            ck.violate("pipeline:cut", "a loop of the pipeline could not be followed in %s" % e.cuts[0][1])
        for s, v in rs:
            v = e.snap(s, v)
            ev = s.notes.get("ev", ())
            failed = [x[1] for x in ev if x[0] == "stage" and not x[2]] + ["start" for x in ev if x[0] == "cmdfail"]
            txt = "stages %s" % [(x[1], "ok" if x[2] else "failed") for x in ev if x[0] == "stage"]
            stages = [x[1] for x in ev if x[0] == "stage"]
            if failed:
                first = failed[0]
                ck.oblige(v[0] == "adt" and v[3] == "Err", "pipeline:lost:" + first, "after a failure of '%s' the pipeline returns %s (%s)" % (first, show(v)[:200], txt))
                i = [k for k, x in enumerate(ev) if (x[0] == "stage" and not x[2]) or x[0] == "cmdfail"][0]
                # the lowering thread may be drained after a failed build; nothing else may follow
                later = [x for x in ev[i + 1:] if not (x[0] == "stage" and x[1] == "lower")]
                ck.oblige(not later, "pipeline:goes-on:" + first, "after a failure of '%s' the pipeline goes on with %s" % (first, [x[:2] for x in later]))
                if first in ("link",) and v[0] == "adt" and v[3] == "Err":
                    ck.oblige(mentions(v, S("link-error")), "pipeline:msg", "the linker's error is not part of the reported error: %s" % show(v)[:300])
                if first == "load" and v[0] == "adt" and v[3] == "Err":
                    for k in (0, 1):
                        pass
                if first == "build" and v[0] == "adt" and v[3] == "Err":
                    ck.oblige(mentions(v, S("badmod")), "pipeline:msg-build", "the module errors are not part of the reported error: %s" % show(v)[:300])
                if first == "order" and v[0] == "adt" and v[3] == "Err":
                    ck.oblige(mentions(v, S("cycle")), "pipeline:msg-order", "the cycle is not part of the reported error: %s" % show(v)[:300])
                continue
            ck.oblige(stages == ["load", "order", "build", "lower", "link"], "pipeline:stages", "without a failure the stages run are %s" % stages)
            ck.oblige(v[0] == "adt" and v[3] == "Ok", "pipeline:spurious", "without a failure the pipeline returns %s" % show(v)[:200])
            runs = evs(s, "cmd")
            if not run_args:
                ck.oblige(not runs and v == ok(NONE), "pipeline:norun", "without arguments to run, the pipeline returns %s and runs %d program(s)" % (show(v)[:100], len(runs)))
            else:
                good = len(runs) == 1 and v[3] == "Ok" and v[4][0][0] == "adt" and v[4][0][3] == "Some"
                ck.oblige(good, "pipeline:run", "the compiled program is run %d time(s) and the result is %s" % (len(runs), show(v)[:200]))
                if good:
                    out = evs(s, "stage")[-1][3]
                    ck.oblige(runs[0][2] == out, "pipeline:prog", "the program run (%s) is not the executable produced (%s)" % (show(runs[0][2]), show(out)))
                    ck.oblige(mentions(runs[0][3], S("the-args")), "pipeline:args", "the arguments given are not passed to the program")
                    want = S("status0", ("adt", "std::process::ExitStatus", ()))
                    ck.oblige(v[4][0][4][0] == want or mentions(v[4][0], S("child0", ("adt", "std::process::Child", ()))), "pipeline:status", "the status returned is %s, not the program's" % show(v[4][0]))
        for s, fn, why in e.panics:
            # a panic in the main thread is a failing exit; it must not be the only outcome
            ck.count("pipeline panicking paths")
    ck.floor("pipeline paths", 8)


# ------------------------------------------------------------------ B: the command
def command(ck, mir):
    M = "llrl0::main"
    main = M if M in mir.fns else next(n for n in mir.fns if n.endswith("::main") and n.count("::") == 1)
    EX = ("adt", "std::process::ExitStatus", ())
    exits = []

    def hooks(e, st, c):
        d = strip_generics(c.d)
        last = d.split("::")[-1]
        if d == "llrl::pipeline::Pipeline::run":
            a, b, n = st, st.fork(), st.fork()
            note(a, "run", "status")
            note(b, "run", "error")
            note(n, "run", "none")
            return [(a, ok(some(S("status", EX)))), (n, ok(NONE)), (b, err(S("pipeline-error")))]
        if d.startswith("llrl::pipeline::Pipeline::"):
            return [(st, S(last))] if last != "register_package" else [(st, S("registered", ("prim", "bool")))]
        if d == "std::process::exit":
            st.notes["exit"] = arr(e, st, c.args[0])
            exits.append(st)
            return []
        if d == "clap::ArgMatches::values_of":
            return [(st, NONE if full == 0 and show(arr(e, st, c.args[1])) != "'entry'" else some(("arr", (S("value", ("ref", 0, ("prim", "str"))),))))]
        if d == "clap::ArgMatches::is_present":
            if show(arr(e, st, c.args[1])) in ("'run'",):
                return None
            return [(st, B(full == 1))]
        if d == "std::process::ExitCode::from" or (last == "from" and "ExitCode" in c.path):
            return [(st, ("adt", "$Code", 0, "", (arr(e, st, c.args[0]),)))]
        if d == "std::io::_eprint":
            note(st, "eprint", arr(e, st, c.args[0]))
            return [(st, UNIT)]
        if d == "std::process::ExitStatus::code":
            a, b = st, st.fork()
            note(a, "how", "exited")
            note(b, "how", "killed")
            return [(a, some(S("code", ("prim", "i32")))), (b, NONE)]
        if last == "signal" and "ExitStatus" in d:
            how = [x[1] for x in evs(st, "how")]
            if not how:
                a, b = st, st.fork()
                note(a, "how", "killed")
                note(b, "how", "exited")
                return [(a, some(S("signal", ("prim", "i32")))), (b, NONE)]
            return [(st, some(S("signal", ("prim", "i32"))) if how[0] == "killed" else NONE)]
        if d == "std::process::ExitStatus::success":
            a, b = st, st.fork()
            note(a, "how", "zero")
            note(b, "how", "nonzero")
            return [(a, B(True)), (b, B(False))]
        return None

    outs = []
    rs = []
    for full in (0, 1):
        e = Engine(mir, hooks, max_paths=20000)
        rs += e.call_fn(State(), main, [])
    for s in exits:
        outs.append((s, s.notes["exit"]))
    for s, v in rs:
        v = e.snap(s, v)
        if v == UNIT:
            outs.append((s, I(0)))
        elif v[0] == "adt" and v[3] == "Err":
            outs.append((s, I(1)))
            note(s, "eprint", v)          # the runtime prints the error returned by main
        elif v[0] == "adt" and v[3] == "Ok":
            outs.append((s, I(0)))
        elif v[0] == "adt" and v[1] == "$Code":
            outs.append((s, v[4][0]))
        elif "SUCCESS" in show(v):
            outs.append((s, I(0)))
        elif "FAILURE" in show(v):
            outs.append((s, I(1)))
        else:
            outs.append((s, v))
    seen = set()
    for s, code in outs:
        ck.count("command paths")
        run = [x[1] for x in evs(s, "run")]
        how = [x[1] for x in evs(s, "how")]
        if code[0] == "app" and code[1].startswith("Cast") and len(code[2]) == 1:
            code = code[2][0]
        nz = nonzero(code, s)
        if run == ["none"]:
            seen.add("none")
            ck.oblige(code == I(0) or (code[0] == "i" and code[1] == 0), "main:none", "a successful compile exits with %s" % show(code))
        elif run == ["status"]:
            seen.add("status")
            if how and how[0] == "zero":
                ck.oblige(code[0] == "i" and code[1] == 0, "main:zero", "after a successful program the command exits with %s" % show(code))
            elif how and how[0] == "exited":
                ck.oblige(code == S("code", ("prim", "i32")), "main:code", "when the program exits with a code, the command exits with %s instead of that code" % show(code))
            else:
                ck.oblige(nz, "main:signal", "when the program is %s, the command exits with %s, which is or may be zero" % (how[0] if how else "finished in any way", show(code)))
        else:
            kind = "error" if run else "early"
            seen.add(kind)
            ck.oblige(nz, "main:" + kind, "when %s, the command exits with %s" % ("the pipeline fails" if run else "the pipeline is not run at all", show(code)))
            if run == ["error"]:
                ck.oblige(any(mentions(x[1], S("pipeline-error")) for x in evs(s, "eprint")), "main:print", "the error of the pipeline is not printed")
            else:
                ck.oblige(bool(evs(s, "eprint")), "main:print-early", "an early failure is not printed")
    ck.oblige({"none", "status", "error", "early"} <= seen, "main:anchor", "the command's outcomes seen are %s" % sorted(seen))
    ck.floor("command paths", 5)


def nonzero(v, st):
    if v[0] == "i":
        return v[1] & 0xff != 0
    if v[0] == "app" and v[1] in ("Add", "AddUnchecked", "AddWithOverflow", "Offset", "BitOr"):
        cs = [x[1] for x in v[2] if x[0] == "i"]
        syms = [x for x in v[2] if x[0] != "i"]
        # signal numbers are 1..=64
        if len(syms) == 1 and syms[0] == S("signal", ("prim", "i32")) and len(cs) == 1:
            return all((cs[0] + k) & 0xff for k in range(1, 65)) if v[1] != "BitOr" else True
    if v == S("signal", ("prim", "i32")):
        return True
    return False


# ------------------------------------------------------------------ C: the linker call
def linking(ck, mir):
    L = "llrl::backend::native::linking::link"
    objs = [S("obj0"), S("obj1"), S("obj2")]

    def hooks(e, st, c):
        d = strip_generics(c.d)
        last = d.split("::")[-1]
        r = command_hooks(e, st, c, d, last)
        if r is not None:
            return r
        if c.m in ("call_mut", "call_once", "call") and c.args and names(arr(e, st, c.args[0]), "emit"):
            a = arr(e, st, c.args[1])
            note(st, "emit", arr(e, st, a[1][0]), a[1][1])
            return [(st, UNIT)]
        if d == "std::process::ExitStatus::success":
            a, b = st, st.fork()
            note(a, "linked", True)
            note(b, "linked", False)
            return [(a, B(True)), (b, B(False))]
        if d == "std::process::ExitStatus::code":
            a, b, z = st, st.fork(), st.fork()
            note(a, "linked", True)
            note(b, "linked", False)
            note(z, "linked", False)
            return [(a, some(I(0, "i32"))), (b, some(I(1, "i32"))), (z, NONE)]
        if last == "write_all":
            note(st, "write", arr(e, st, c.args[0]), arr(e, st, c.args[1]))
            b = st.fork()
            return [(st, ok(UNIT)), (b, err(S("io")))]
        return None

    e = Engine(mir, hooks)
    st = State()
    f = mir.fns[L]
    rs = e.call_fn(st, L, [S("dest", ("ref", 0, ("adt", "std::path::Path", ()))), ("arr", tuple(objs)), S("emit", ("param", 2, "F")), ("arr", (S("opt0"), S("opt1")))],
                   (("param", 0, "O"), ANY, ANY, ANY))
    ck.count("link paths", len(rs))
    if e.cuts or not rs:
        ck.violate("link:follow", "the linking step could not be followed")
    kinds = set()
    for s, v in rs:
        v = e.snap(s, v)
        lk = [x[1] for x in evs(s, "linked")]
        if evs(s, "cmdfail"):
            ck.oblige(v[3] == "Err", "link:nospawn", "when the linker cannot be started the result is %s" % show(v)[:200])
            continue
        ck.oblige(len(evs(s, "cmd")) == 1, "link:once", "the linker is run %d times" % len(evs(s, "cmd")))
        if not lk:
            ck.oblige(v[3] == "Err", "link:unchecked", "the result is %s although the linker's status was not looked at" % show(v)[:200])
            continue
        kinds.add(lk[0])
        ck.oblige((v[3] == "Ok") == lk[0], "link:status", "when the linker %s, linking returns %s" % ("succeeds" if lk[0] else "fails", v[3]))
        for x in evs(s, "cmd"):
            a = x[3]
            flat = []
            for y in a:
                if isinstance(y, tuple) and y and y[0] == "all":
                    flat.append(y[1])
                else:
                    flat.append(y)
            emitted = evs(s, "emit")
            ck.oblige([z[2] for z in emitted] == objs or sorted(map(str, (z[2] for z in emitted))) == sorted(map(str, objs)), "link:objects", "objects written to files: %s of %d" % ([show(z[2]) for z in emitted], len(objs)))
            files = [z[1] for z in emitted]
            ck.oblige(len(set(files)) == len(files), "link:files", "two objects are written to the same file")
            for p in files:
                ck.oblige(any(mentions(y, p) for y in flat), "link:arg", "an object file is not passed to the linker: %s" % show(p))
            oi = [i for i, y in enumerate(flat) if y == ("s", "-o")]
            ck.oblige(len(oi) == 1 and oi[0] + 1 < len(flat) and names(flat[oi[0] + 1], "dest") , "link:dest", "the linker's output is not the requested file")
            for lib in ("-lllrt", "-lgc", "-lm"):
                ck.oblige(any(y == ("s", lib) for y in flat), "link:lib" + lib, "the linker is not given %s" % lib)
            for o in (S("opt0"), S("opt1")):
                ck.oblige(any(mentions(y, o) for y in flat), "link:opt", "a given linker option is not passed on")
    ck.oblige(kinds == {True, False}, "link:anchor", "linker outcomes seen: %s" % sorted(kinds))


# ------------------------------------------------------------------ D: the backends pass the result on
def backends(ck, mir):
    n = 0
    for b in ("chibi", "llvm"):
        base = "llrl::backend::%s::" % b
        pe = [x for x in mir.fns if x.startswith(base) and x.endswith("::produce_executable")]
        for f in pe:
            body = mir.fns[f]

            def hooks(e, st, c):
                d = strip_generics(c.d)
                last = d.split("::")[-1]
                if d == "llrl::backend::native::linking::link":
                    note(st, "linkcall", e.snap(st, c.args[1]), arr(e, st, c.args[0]), e.snap(st, c.args[3]))
                    x = st.fork()
                    note(st, "stage", "link", True)
                    note(x, "stage", "link", False)
                    return [(st, ok(S("out"))), (x, err(S("link-error")))]
                if last == "codegen" and d.startswith(base):
                    note(st, "codegen", arr(e, st, c.args[1]))
                    return [(st, UNIT)]
                if d == "llrl::report::Report::on":
                    return e.call_value(st, c.args[2], [], depth=c.depth)
                return None
            e = Engine(mir, hooks)
            args = [S("dest") if i == 1 else S("arg%d" % i, mir.ty(body["crate"], body["locals"][i + 1][0])) for i in range(3)]
            rs = e.call_fn(State(), f, args, ())
            n += 1
            ck.count("backend executable paths", len(rs))
            for s, v in rs:
                v = e.snap(s, v)
                lk = [x[2] for x in evs(s, "stage")]
                if lk:
                    ck.oblige(v[0] == "adt" and (v[3] == "Ok") == lk[0], "backend:%s" % b, "%s returns %s when linking %s" % (f, show(v)[:100], "succeeds" if lk[0] else "fails"))
                    ck.oblige(evs(s, "codegen") and evs(s, "codegen")[0][1] == B(True), "backend:%s:main" % b, "%s links without generating the main function first" % f)
                elif v[0] == "adt" and v[3] == "Ok":
                    ck.violate("backend:%s:nolink" % b, "%s returns success without linking" % f)
    ck.floor("backend executable paths", 6)
    # the worker thread answers with the builder's result
    for b in ("chibi", "llvm"):
        base = "llrl::backend::%s::" % b
        f = base + "process_requests"
        if f not in mir.fns:
            ck.violate("backend:%s:anchor" % b, "the %s backend's request loop is gone" % b)
            continue
        rq = base + "Request"
        vs = [v["name"] if "name" in v else v["n"] for v in mir.adts[rq]["variants"]]
        vi = vs.index("ProduceExecutable")

        def hooks(e, st, c):
            d = strip_generics(c.d)
            last = d.split("::")[-1]
            if d.startswith("crossbeam_channel") and last == "recv":
                if st.notes.get("recv"):
                    return [(st, err(S("disconnected")))]
                st.notes["recv"] = 1
                return [(st, ok(("adt", rq, vi, "ProduceExecutable", (S("dest"), S("opts"), S("sender")))))]
            if d.startswith("crossbeam_channel") and last == "send":
                note(st, "send", arr(e, st, c.args[0]), e.snap(st, c.args[1]))
                return [(st, ok(UNIT))]
            if last == "produce_executable":
                note(st, "pe", [e.snap(st, x) for x in c.args[1:]])
                x = st.fork()
                return [(st, ok(UNIT)), (x, err(S("link-error")))]
            if last == "new" and d.startswith(base + "Builder"):
                return [(st, S("builder", ("adt", base + "Builder", ())))]
            return None
        e = Engine(mir, hooks)
        rs = e.call_fn(State(), f, [S("options"), S("receiver")])
        got = set()
        for s, v in rs:
            ck.count("backend request paths")
            for x in evs(s, "send"):
                ck.oblige(x[1] == S("sender"), "backend:%s:reply" % b, "the %s backend answers someone else: %s" % (b, show(x[1])))
                got.add(show(x[2]))
            pe = evs(s, "pe")
            ck.oblige(len(pe) == 1 and pe[0][1][:2] == [S("dest"), S("opts")], "backend:%s:pe" % b, "the %s backend's builder is called with %s" % (b, [[show(y) for y in x[1]] for x in pe]))
            ck.oblige(len(evs(s, "send")) == 1, "backend:%s:replies" % b, "the %s backend answers %d times" % (b, len(evs(s, "send"))))
        want = {show(ok(UNIT)), show(err(S("link-error")))}
        ck.oblige(got == want, "backend:%s:answer" % b, "the %s backend answers %s to a link that succeeds / fails" % (b, sorted(got)))
    ck.floor("backend request paths", 4)


# ------------------------------------------------------------------ E: semantic analysis phases
def sema(ck, mir):
    base = "llrl::module::sema::"
    phases = sorted(n for n in mir.fns if n.startswith(base) and n.count("::") == 4 and n.endswith("::run"))
    ck.count("analysis phases", len(phases))
    ck.floor("analysis phases", 7)

    def hooks(e, st, c):
        d = strip_generics(c.d)
        if d in phases:
            x = st.fork()
            note(st, "phase", d, True)
            note(x, "phase", d, False)
            return [(st, ok(UNIT)), (x, err(("sym", "phase-error", ("adt", "std::boxed::Box", ()))))]
        if d.startswith("llrl::report::Report::"):
            return [(st, UNIT)]
        if d.endswith("::into_result_error"):
            return [(st, ("app", "conv", (arr(e, st, c.args[0]),), ANY))]
        return None
    e = Engine(mir, hooks)
    B = "llrl::module::Module::build"
    S_ = "llrl::source::Source"
    rep = next(f for f in mir.adts[S_]["variants"][0]["fields"] if f["n"] == "rep")
    fs = []
    for f in mir.adts[S_]["variants"][0]["fields"]:
        if f["n"] == "dependencies":
            fs.append(("map", None, ()))
        else:
            fs.append(S("src." + f["n"], mir.ty("llrl", f["t"])))
    st = State()
    src = e.new_cell(st, ("adt", S_, 0, "", tuple(fs)))
    rs = e.call_fn(st, B, [("adt", next(p for p in mir.adts if p.endswith("::ModuleId")), 0, "", (I(7, "u32"),)), src, S("external")], (("param", 0, "E"),))
    allok = 0
    for s, v in rs:
        v = e.snap(s, v)
        ph = [x for x in s.notes.get("ev", ()) if x[0] == "phase"]
        bad = [i for i, x in enumerate(ph) if not x[2]]
        ck.count("module build paths")
        if bad:
            ck.oblige(v[0] == "adt" and v[3] == "Err" and mentions(v, ("sym", "phase-error", ("adt", "std::boxed::Box", ()))), "sema:lost:" + ph[bad[0]][1], "an error found by %s is lost: the module build returns %s" % (ph[bad[0]][1], show(v)[:200]))
            ck.oblige(bad[0] == len(ph) - 1, "sema:goes-on", "after an error in %s the build goes on with %s" % (ph[bad[0]][1], ph[-1][1]))
        elif ph:
            ck.oblige(v[0] == "adt" and v[3] == "Ok", "sema:spurious", "a module without errors fails to build")
            ck.oblige(sorted(x[1] for x in ph) == phases, "sema:phases", "a module is accepted after the phases %s only" % [x[1].split("::")[-2] for x in ph])
            allok += 1
        else:
            rp = [k for k in s.pc]
    ck.oblige(allok >= 1, "sema:anchor", "no path runs all phases")
    if e.cuts:
        ck.violate("sema:cut", "a loop could not be followed in %s" % e.cuts[0][1])
    ck.floor("module build paths", 8)


def check(ck):
    ck.rule("The driver is interpreted abstractly with every stage (loading, ordering, module build, each analysis phase, linking, the linker process, the compiled program) succeeding or failing nondeterministically; on every path a failed stage makes the result an error carrying it, nothing but draining the lowering thread follows it, and the process status is zero only on success (the program's own code, non-zero on a signal).")
    lib = Mir(["llrl"])
    pipeline(ck, lib)
    linking(ck, lib)
    backends(ck, lib)
    sema(ck, lib)
    command(ck, Mir(["llrl", "llrl0.bin"]))
