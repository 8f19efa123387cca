"""Builds (if needed) and loads the MIR facts of /repo's current source."""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))          # git-ignored
LLVM = "/usr/lib/llvm-14"

RUST_CRATES = ["llvm0", "llrl0", "xten0", "xtencg", "rt", "std"]


def env():
    e = dict(os.environ)
    for k in ("MAKEFLAGS", "RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER"):
        e.pop(k, None)
    e["HOME"] = e.get("HOME", "/root")
    cargo = [p for p in e.get("PATH", "").split(":")]
    e["PATH"] = ":".join([LLVM + "/bin"] + cargo + ["/root/.cargo/bin", "/usr/local/bin", "/usr/bin", "/bin"])
    e["LLVM_SYS_110_PREFIX"] = LLVM
    e["LLVM_SYS_110_FFI_WORKAROUND"] = "YES"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    e["RUSTC_WRAPPER"] = ""
    e["RUSTUP_TOOLCHAIN"] = "nightly"
    return e


class BuildError(Exception):
    """The analysed source does not build or the extractor failed."""


def run(cmd, cwd=None, env_=None, timeout=900):
    p = subprocess.run(cmd, cwd=cwd, env=env_ or env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       timeout=timeout, text=True, errors="replace")
    if p.returncode != 0:
        raise BuildError("command failed (%d): %s\n%s" % (p.returncode, " ".join(cmd), p.stdout[-4000:]))
    return p.stdout


def tree_hash(dirs, exts):
    h = hashlib.sha256()
    for d in dirs:
        base = os.path.join(REPO, d)
        fs = []
        if os.path.isfile(base):
            fs = [base]
        else:
            for r, ds, ns in os.walk(base):
                ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
                for n in sorted(ns):
                    if n.endswith(exts):
                        fs.append(os.path.join(r, n))
        for f in fs:
            h.update(os.path.relpath(f, REPO).encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def own_hash():
    h = hashlib.sha256()
    for r, ds, ns in os.walk(os.path.join(VERIF, "mirdump")):
        for n in sorted(ns):
            with open(os.path.join(r, n), "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()


def build_driver():
    """Builds the rustc driver (cached in build/driver)."""
    tgt = os.path.join(BUILD, "driver")
    e = env()
    e["CARGO_TARGET_DIR"] = tgt
    run(["cargo", "build", "--offline"], cwd=os.path.join(VERIF, "mirdump"), env_=e)
    return os.path.join(tgt, "debug", "mirdump")


def sysroot_lib():
    return run(["rustc", "--print", "sysroot"]).strip() + "/lib"


def mir_facts_dir():
    """Ensures fresh facts for the current tree; returns the directory with <crate>.json."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        key = tree_hash(RUST_CRATES + ["Cargo.toml", "Cargo.lock"],
                        (".rs", ".toml", ".c", ".h", ".lock", "Makefile", ".llrl", ".csv")) + own_hash()
        key = hashlib.sha256(key.encode()).hexdigest()[:24]
        out = os.path.join(BUILD, "facts-" + key)
        if os.path.exists(os.path.join(out, "done")):
            return out
        for n in os.listdir(BUILD):
            if n.startswith("facts-"):
                shutil.rmtree(os.path.join(BUILD, n), ignore_errors=True)
        drv = build_driver()
        os.makedirs(out, exist_ok=True)
        e = env()
        e["MIRDUMP_OUT"] = out
        e["RUSTC_WORKSPACE_WRAPPER"] = drv
        tgt = os.path.join(BUILD, "check-target")
        e["CARGO_TARGET_DIR"] = tgt
        e["LD_LIBRARY_PATH"] = sysroot_lib()
        # cargo's freshness cache skips the wrapper for unchanged workspace members:
        # drop their fingerprints so that every member is analysed in this run.
        own = ("llvm0", "llrl0", "xten0", "xtencg", "llrt", "llstd", "rt", "std", "llrl", "xten", "llvm")
        for sub in (".fingerprint", "build"):
            fp = os.path.join(tgt, "debug", sub)
            for n in os.listdir(fp) if os.path.isdir(fp) else ():
                if n in own or n.rsplit("-", 1)[0] in own:
                    shutil.rmtree(os.path.join(fp, n), ignore_errors=True)
        want = ["llrl.json", "llrl0.bin.json", "llrt.json", "llstd.json", "llvm.json", "xten.json", "xtencg.bin.json"]
        for attempt in (0, 1):
            run(["cargo", "check", "--offline", "--locked", "--workspace"], cwd=REPO, env_=e)
            miss = [w for w in want if not os.path.exists(os.path.join(out, w))]
            if not miss:
                break
            shutil.rmtree(tgt, ignore_errors=True)   # stale build folder: start from nothing
        if miss:
            raise BuildError("extractor produced no facts for " + ", ".join(miss))
        open(os.path.join(out, "done"), "w").write("ok")
        return out


def canonical(raw):
    """Re-exported items get the path of their definition, so that facts of different crates name the same thing alike."""
    home = {}
    for c, t in raw.items():
        F = json.loads(t)
        cr = F["crate"]
        ids = [a["p"] for a in F["adts"]] + [x["p"] for x in F["traits"]] + [n for n, f in F["fns"].items() if "<" not in n and "{" not in n]
        for p in ids:
            if p.startswith(cr + "::"):
                home.setdefault(cr, {}).setdefault(p.rsplit("::", 1)[1], set()).add(p)
    out = {}
    for c, t in raw.items():
        cr = c.split(".")[0] if not c.endswith(".bin") else c
        alias = {}
        for dep, names in home.items():
            if dep == cr:
                continue
            for m in set(re.findall(r"\b%s(?:::\w+)+" % dep, t)):
                parts = m.split("::")
                for k in range(2, len(parts) + 1):
                    cand = names.get(parts[k - 1], ())
                    full = "::".join(parts[:k])
                    if not cand or full in cand:
                        if full in cand:
                            break
                        continue
                    pre = "::".join(parts[:k - 1]) + "::"
                    sub = sorted(x for x in cand if x.startswith(pre))
                    if len(sub) == 1:
                        alias[full] = sub[0]
                        break
        if alias:
            rx = re.compile(r"\b(?:%s)\b" % "|".join(re.escape(a) for a in sorted(alias, key=len, reverse=True)))
            t = rx.sub(lambda m: alias[m.group(0)], t)
        out[c] = t
    return out


class Mir:
    """Merged facts of the selected crates."""

    def __init__(self, crates, canon=False):
        d = mir_facts_dir()
        raw = {}
        for c in crates:
            with open(os.path.join(d, c + ".json")) as fh:
                raw[c] = fh.read()
        if canon:
            raw = canonical(raw)
        self.fns, self.adts, self.traits, self.impls, self.externs = {}, {}, {}, [], {}
        self.crate_of = {}
        self.impl_by_trait = {}
        self._ty = {}
        for c in crates:
            F = json.loads(raw.pop(c))
            cn = F["crate"] if not c.endswith(".bin") else c
            tys = F["types"]
            self._ty[cn] = Types(tys)
            for n, f in F["fns"].items():
                f["crate"] = cn
                f["name"] = n
                self.fns[n] = f
            for a in F["adts"]:
                a["crate"] = cn
                self.adts[a["p"]] = a
            for t in F["traits"]:
                self.traits[t["p"]] = t
            for x in F["externs"]:
                x["crate"] = cn
                self.externs[x["p"]] = x
            for im in F["impls"]:
                im["crate"] = cn
                T = self._ty[cn]
                im["selfty"] = T.get(im["self"])
                if "targs" in im:
                    im["trargs"] = [T.arg(x) for x in im["targs"]]
                    self.impl_by_trait.setdefault(im["trait"], []).append(im)
                self.impls.append(im)
        self.impl_of_fn = {}
        for im in self.impls:
            for it in im["items"]:
                self.impl_of_fn[it["p"]] = im

    def ty(self, crate, i):
        return self._ty[crate].arg(i)


class Types:
    """Structural, hash-consed-by-equality types as tuples."""

    def __init__(self, raw):
        self.raw = raw
        self.memo = {}

    def arg(self, i):
        if isinstance(i, dict):
            return ("const", i.get("c", "?"))
        return self.get(i)

    def get(self, i):
        r = self.memo.get(i)
        if r is None:
            self.memo[i] = ("rec", i)
            r = self._mk(self.raw[i])
            self.memo[i] = r
        return r

    def _mk(self, t):
        k = t["k"]
        if k == "adt":
            return ("adt", t["d"], tuple(self.arg(x) for x in t["a"]))
        if k in ("ref", "ptr"):
            return (k, t["m"], self.get(t["t"]))
        if k == "tuple":
            return ("tuple", tuple(self.get(x) for x in t["a"]))
        if k == "slice":
            return ("slice", self.get(t["t"]))
        if k == "array":
            return ("array", self.get(t["t"]), t["n"])
        if k in ("fndef", "closure"):
            return (k, t["d"], tuple(self.arg(x) for x in t["a"]))
        if k == "param":
            return ("param", t["i"], t["n"])
        if k == "dyn":
            return ("dyn", t["d"])
        if k == "fnptr":
            return ("fnptr", t["s"])
        return (k, t["n"])


def rust_layout(mir, t):
    """(size, align, field offsets) of a type whose layout the language or its representation attributes fix; else None"""
    P = {"bool": 1, "u8": 1, "i8": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "f32": 4, "char": 4, "u64": 8, "i64": 8, "f64": 8, "usize": 8, "isize": 8,
         "u128": 16, "i128": 16}
    if t[0] == "prim" and t[1] in P:
        return P[t[1]], P[t[1]], ()
    if t[0] in ("ptr", "ref"):
        x = t[2]
        if x[0] in ("dyn", "str", "slice") or x == ("prim", "str"):
            return 16, 8, ()
        return 8, 8, ()
    if t[0] == "tuple" and not t[1]:
        return 0, 1, ()
    if t[0] == "adt":
        a = mir.adts.get(t[1])
        if a is None:
            if t[1] == "std::mem::ManuallyDrop" and t[2]:
                return rust_layout(mir, t[2][0])
            return None
        if a["layout"]:
            return a["layout"]["size"], a["layout"]["align"], tuple(a["layout"]["offs"])
        if len(a["variants"]) != 1 or "Union" in a["kind"]:
            return None
        transparent = "IS_TRANSPARENT" in a["repr"]
        if not (a["reprc"] or transparent) or "pack: Some" in a["repr"] or "align: Some" in a["repr"]:
            return None
        args = {g[0]: t[2][k] for k, g in enumerate(a["gen"]) if k < len(t[2])}
        off, al, offs = 0, 1, []
        for f in a["variants"][0]["fields"]:
            l = rust_layout(mir, subst(mir.ty(a["crate"], f["t"]), args))
            if l is None:
                return None
            off += -off % l[1]
            offs.append(off)
            off += l[0]
            al = max(al, l[1])
        return off + -off % al, al, tuple(offs)
    return None


def subst(t, args):
    """Substitute params (index -> type) in t."""
    k = t[0]
    if k == "param":
        return args.get(t[1], t)
    if k in ("adt", "fndef", "closure"):
        return (k, t[1], tuple(subst(x, args) for x in t[2])) if t[2] else t
    if k in ("ref", "ptr"):
        return (k, t[1], subst(t[2], args))
    if k == "tuple":
        return (k, tuple(subst(x, args) for x in t[1]))
    if k == "slice":
        return (k, subst(t[1], args))
    if k == "array":
        return (k, subst(t[1], args), t[2])
    return t


def tmatch(pat, t, b):
    """One-way match of an impl type pattern (params are variables) against t."""
    if pat[0] == "param":
        if pat[1] in b:
            return b[pat[1]] == t
        b[pat[1]] = t
        return True
    if pat[0] != t[0]:
        return False
    k = pat[0]
    if k in ("adt", "fndef", "closure"):
        return pat[1] == t[1] and len(pat[2]) == len(t[2]) and all(tmatch(x, y, b) for x, y in zip(pat[2], t[2]))
    if k in ("ref", "ptr"):
        return pat[1] == t[1] and tmatch(pat[2], t[2], b)
    if k == "tuple":
        return len(pat[1]) == len(t[1]) and all(tmatch(x, y, b) for x, y in zip(pat[1], t[1]))
    if k == "slice":
        return tmatch(pat[1], t[1], b)
    if k == "array":
        return pat[2] == t[2] and tmatch(pat[1], t[1], b)
    return pat == t


def tstr(t):
    k = t[0]
    if k == "adt":
        return t[1].split("::")[-1] + ("<" + ",".join(map(tstr, t[2])) + ">" if t[2] else "")
    if k == "ref":
        return "&" + ("mut " if t[1] else "") + tstr(t[2])
    if k == "ptr":
        return "*" + ("mut " if t[1] else "const ") + tstr(t[2])
    if k == "tuple":
        return "(" + ",".join(map(tstr, t[1])) + ")"
    if k == "slice":
        return "[" + tstr(t[1]) + "]"
    if k == "array":
        return "[%s;%s]" % (tstr(t[1]), t[2])
    if k in ("fndef", "closure"):
        return t[1]
    if k == "param":
        return t[2]
    return str(t[1])
