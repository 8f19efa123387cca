"""The meaning of IR terms before and after lowering, by enumeration of their paths.

Scalars are opaque terms (leaves) or constants; aggregates, closures and memory cells are structural.  A path is
identified by the set of decided conditions over opaque terms; its outcome is the value, the manner of leaving and the
ordered list of external calls.  The same evaluator reads both sides: source terms may use data constructors, patterns,
local functions, generics and transparent functions; target terms use only what the back ends accept."""

LIMIT_LOOP, LIMIT_CALL, LIMIT_PATHS = 3, 12, 400


class Bad(Exception):
    """the lowered program is wrong by itself"""


class Leave(Exception):
    pass


class Ret(Leave):
    pass


class Jump(Leave):
    pass


class Halt(Leave):
    pass


def k(n, ty=None):
    return ("k", n)


def show(v):
    if v is None:
        return "-"
    h = v[0]
    if h == "k":
        return str(v[1])
    if h == "leaf":
        return v[1] + ("(%s)" % ", ".join(show(x) for x in v[2]) if v[2] else "")
    if h == "op":
        return "%s(%s)" % (v[1][0], ", ".join(show(x) for x in v[2]))
    if h == "eq":
        return "%s == %s" % (show(v[1]), show(v[2]))
    if h == "isnull":
        return "%s is null" % show(v[1])
    if h in ("S", "D", "envv"):
        return "%s{%s}" % (h, ", ".join(show(x) for x in v[-1]))
    if h == "reint":
        return "reinterpreted %s" % show(v[2])
    return str(h if len(v) == 1 else v[:2])


class Group:
    """local functions made together, with the variables of that moment"""

    def __init__(self, funs, frame):
        self.funs, self.vars, self.ct = {f[0]: f for f in funs}, dict(frame.vars), dict(frame.ct)


class Thunk:
    def __init__(self, term, frame):
        self.term, self.frame = term, frame


class Frame:
    def __init__(self, vars=None, ct=None):
        self.vars, self.ct, self.slots = vars or {}, ct or {}, {}


class Cell:
    n = 0

    def __init__(self, v, stack=False):
        self.v, self.stack, self.dead, self.shown, self.gen = v, stack, False, False, 0


class Machine:
    """one path of one side"""

    def __init__(self, defs, source, choices):
        self.defs, self.source, self.choices = defs, source, choices
        self.taken, self.pc, self.events, self.depth, self.steps = [], {}, [], 0, 0

    # ---- conditions
    def decide(self, c):
        if c[0] == "uninit":
            raise Bad("a condition is an uninitialised value")
        if c[0] == "k":
            return bool(c[1])
        if c[0] == "op" and c[1] == ("Not",):
            return not self.decide(c[2][0])
        if c[0] == "op" and c[1] == ("IEq",):
            c = self.equal(*c[2])
            if c[0] == "k":
                return bool(c[1])
        if c[0] not in ("leaf", "op", "eq", "isnull", "mem"):
            raise Bad("a condition is %s" % show(c))
        if c in self.pc:
            return self.pc[c]
        if c[0] == "eq":
            for q, b in self.pc.items():
                if q[0] == "eq" and q[1] == c[1] and b and q[2] != c[2]:
                    return False
            if c[1][0] == "leaf" and c[1][3] == "u1" and self.pc.get(("eq", c[1], ("k", 1 - c[2][1]))) is False:
                return True
        if len(self.taken) < len(self.choices):
            b = self.choices[len(self.taken)]
        else:
            b = True
        self.taken.append(b)
        self.pc[c] = b
        return b

    def equal(self, a, b):
        if a[0] == "k" and b[0] == "k":
            return ("k", int(a[1] == b[1]))
        if a[0] == "k":
            a, b = b, a
        return ("eq", a, b)

    # ---- types
    def ty(self, t, ct):
        if isinstance(t, str):
            return t
        h = t[0]
        if h == "id":
            if t[1] in ct:
                return ct[t[1]]
            d = self.defs.get(t[1])
            if d and d[0] == "alias" and self.source:
                return self.ty(d[1], {})
            return t
        if h in ("ptr", "array", "syntax"):
            return (h, self.ty(t[1], ct))
        if h == "clos":
            return (h, tuple(self.ty(x, ct) for x in t[1]), self.ty(t[2], ct))
        if h == "inst":
            g, args = self.ty(t[1], ct), tuple(self.ty(x, ct) for x in t[2])
            d = self.defs[g[1]]
            if d[2][0] == "alias":
                return self.ty(d[2][1], dict(zip(d[1], args)))
            return ("inst", g, args)
        if h == "get":
            tab, env = self.definition(self.ty(t[1], ct))
            return self.ty(dict(tab[1])[t[2]], env)
        raise KeyError(h)

    def definition(self, t):
        """(definition, type variables) of a resolved type"""
        if t[0] == "inst":
            d = self.defs[t[1][1]]
            return d[2], dict(zip(d[1], t[2]))
        if t[1] not in self.defs:
            raise Bad("#%d is used but not defined" % t[1])
        return self.defs[t[1]], {}

    # ---- observation
    def obs(self, v, depth=0):
        h = v[0]
        if h == "uninit":
            raise Bad("an uninitialised value is observed")
        if h in ("k", "leaf", "eq", "isnull", "null", "unit", "mem", "size"):
            return v
        if h == "op":
            if v[1] == ("IEq",):
                return self.equal(*v[2])
            return v
        if h == "ptr":
            v[1].shown = True
            if depth > 6:
                return ("ptr",)
            x = self.load(v)
            return ("ptr", self.obs(x, depth + 1))
        if h == "syntax":
            return ("syntax", self.obs(v[1], depth))
        if h == "addr":
            return ("addr", self.obs(v[1], depth))
        raise NotImplementedError("observing %s" % h)

    def load(self, p):
        if p[0] == "ptr":
            if p[1].dead:
                raise Bad("a stack cell is used after the function that made it has returned")
            if p[1].gen != p[2]:
                raise Bad("a stack cell is used through a pointer that is older than its reuse")
            return p[1].v
        if p[0] == "null":
            raise Halt("null")
        if p[0] == "uninit":
            raise Bad("an uninitialised pointer is dereferenced")
        if p[0] not in ("leaf", "op", "mem"):
            raise Bad("%s is dereferenced" % show(p))
        return ("mem", p, len(self.events), None)

    # ---- terms
    def ev(self, x, f):
        self.steps += 1
        if self.steps > 40000:
            raise Halt("steps")
        return getattr(self, "e_" + x[0])(x, f)

    def e_var(self, x, f):
        v = f.vars.get(x[1])
        if v is None:
            raise Bad("variable %d has no value" % x[1])
        if isinstance(v, Thunk):
            return self.ev(v.term, v.frame)
        return v

    def e_const(self, x, f):
        if x[1] == "int":
            return ("k", x[4])
        if x[1] == "unit":
            return ("unit",)
        return ("k", x[1:])

    def e_fun(self, x, f):
        t = self.ty(("id", x[1]) if isinstance(x[1], int) else x[1], f.ct)
        return ("clos", t, None if x[3] is None else self.ev(x[3], f))

    def e_localfun(self, x, f):
        return ("lclos", f.vars[x[1]], x[1], tuple(self.ty(t, f.ct) for t in x[2]))

    def e_letfun(self, x, f):
        for v, t in list(f.vars.items()):
            if isinstance(t, Thunk) and any(mentions(b, v) for *_, b in x[1]):
                f.vars[v] = self.ev(t.term, t.frame)
        g = Group(x[1], f)
        for i in g.funs:
            f.vars[i] = g
            g.vars[i] = g
        return self.ev(x[2], f)

    def e_call(self, x, f):
        kind = x[1]
        if kind == "std" and self.source and x[2][0] == "fun":
            t = self.ty(("id", x[2][1]) if isinstance(x[2][1], int) else x[2][1], f.ct)
            d, ct = self.definition(t)
            if d[4]:
                # a transparent function is its body with the argument expressions in place of the parameters
                fr = Frame({i: Thunk(a, f) for (i, _), a in zip(d[1], x[4])}, ct)
                fr.slots = f.slots
                return self.ev(d[3], fr)
        args = [self.ev(a, f) for a in x[4]]
        if kind == "std":
            return self.call(self.ev(x[2], f), args)
        callee = x[2] if kind == "c" else self.obs(self.ev(x[2], f))
        n = len(self.events)
        seen = tuple(self.obs(a) for a in args)
        self.events.append((kind, callee, seen))
        if callee == "leaf" or callee == "pure":
            pass
        ret = x[3]
        if ret == "unit":
            return ("unit",)
        return ("leaf", "%s%s#%d" % (kind, "" if kind != "c" else ":" + callee, n), (), self.ty(ret, f.ct) if ret else "u1")

    def call(self, c, args):
        if c[0] not in ("clos", "lclos"):
            raise Bad("%s is called" % show(c))
        self.depth += 1
        if self.depth > LIMIT_CALL:
            raise Halt("calls")
        if c[0] == "lclos":
            _, _, ps, _, body = c[1].funs[c[2]]
            fr = Frame(dict(c[1].vars), dict(c[1].ct))
            fr.ct.update(zip(c[1].funs[c[2]][1], c[3]))
        elif self.source:
            d, ct = self.definition(c[1])
            fr, ps, body = Frame({}, ct), d[1], d[3]
        else:
            d, _ = self.definition(c[1])
            if d[0] != "function":
                raise Bad("#%d is called and is no function" % c[1][1])
            fr, ps, body = Frame(), d[2], d[4]
            if (d[1] is None) != (c[2] is None):
                raise Bad("function #%d %s an environment and is called with%s one" % (c[1][1], "takes" if d[1] else "takes no", "" if c[2] else "out"))
            if d[1]:
                if c[2][0] != "envv" or len(c[2][1]) != len(d[1][1]):
                    raise Bad("the environment of function #%d is %s" % (c[1][1], show(c[2])))
                fr.vars[d[1][0]] = c[2]
                for (i, _), v in zip(d[1][1], c[2][1]):
                    fr.vars[i] = v
        if len(ps) != len(args):
            raise Bad("%d arguments are passed for %d parameters" % (len(args), len(ps)))
        for (i, _), v in zip(ps, args):
            fr.vars[i] = v
        try:
            v = self.ev(body, fr)
        except Ret as r:
            v = r.args[0]
        for s in fr.slots.values():
            if s.shown:
                raise Bad("a stack cell was handed to external code and dies with the function")
            s.dead = True
        self.depth -= 1
        return v

    def e_nullary(self, x, f):
        o = x[1]
        if o[0] == "Uninitialized":
            return ("uninit",)
        if o[0] == "Null":
            return ("null",)
        if o[0] == "GenId":
            self.events.append(("genid",))
            return ("leaf", "genid#%d" % len(self.events), (), "string")
        return ("size", o[0], self.ty(o[1], f.ct))

    def e_unary(self, x, f):
        o = x[1]
        v = self.ev(x[2], f)
        if o[0] == "Load":
            return self.load(v)
        if o[0] == "StructElem":
            if v[0] == "uninit":
                return v
            if v[0] != "S" or o[2] >= len(v[2]):
                raise Bad("field %d of %s" % (o[2], show(v)))
            return v[2][o[2]]
        if o[0] == "Reinterpret":
            return self.reinterpret(v, self.ty(o[1], f.ct))
        if o[0] == "SyntaxBody":
            return v[1] if v[0] == "syntax" else ("op", ("SyntaxBody",), (v,))
        if o[0] == "Panic":
            self.events.append(("panic", self.obs(v)))
            raise Halt("panic")
        if o[0] == "Not" and v[0] == "k":
            return ("k", 1 - v[1])
        if o[0] == "PtrToI" and v[0] == "ptr":
            return ("addr", v)
        if o[0] == "IToPtr" and v[0] == "addr":
            return v[1]
        return ("op", (o[0],) + tuple(self.ty(t, f.ct) if not isinstance(t, int) else t for t in o[1:]), (self.obs(v),))

    def reinterpret(self, v, to):
        """unions keep the value that was put in"""
        d = self.defs.get(to[1]) if to[0] == "id" else None
        if v[0] == "uninit":
            return v
        if d and d[0] == "union":
            return ("reint", to, v)
        if v[0] == "reint":
            w = v[2]
            if w[0] == "S" and ("id", w[1]) == to:
                return w
            raise Bad("a union that holds %s is read as %s" % (show(w), to))
        raise Bad("%s is reinterpreted as %s" % (show(v), to))

    def e_binary(self, x, f):
        o = x[1]
        a, b = self.ev(x[2], f), self.ev(x[3], f)
        n = o[0]
        if n == "Store":
            if b[0] == "ptr":
                self.load(b)
                b[1].v = a
            elif b[0] == "null":
                raise Halt("null")
            else:
                self.events.append(("store", self.obs(a), self.obs(b)))
            return ("unit",)
        if n == "PtrEq":
            if a[0] == "null" and b[0] == "null":
                return ("k", 1)
            if {a[0], b[0]} == {"ptr", "null"}:
                return ("k", 0)
            if a[0] == "ptr" and b[0] == "ptr":
                return ("k", int(a[1] is b[1]))
            if "null" in (a[0], b[0]):
                return ("isnull", self.obs(b if a[0] == "null" else a))
        if n == "IEq":
            return self.equal(self.obs(a), self.obs(b))
        return ("op", o, (self.obs(a), self.obs(b)))

    def e_ternary(self, x, f):
        vs = tuple(self.obs(self.ev(a, f)) for a in x[2:])
        self.events.append((x[1][0],) + vs)
        return ("unit",)

    def e_alloc(self, x, f):
        v = self.ev(x[2], f)
        if x[1] != "Heap":
            c = f.slots.get(id(x))
            if c is None:
                c = f.slots[id(x)] = Cell(v, True)
            elif c.shown:
                raise Bad("a stack cell is reused after it was handed to external code")
            c.v, c.gen = v, c.gen + 1
            return ("ptr", c, c.gen)
        return ("ptr", Cell(v), 0)

    def e_allocarray(self, x, f):
        n = self.obs(self.ev(x[3], f))
        self.events.append(("allocarray", self.ty(x[2], f.ct), n))
        return ("leaf", "array#%d" % len(self.events), (), "array")

    def e_env(self, x, f):
        return ("envv", tuple(self.ev(a, f) for a in x[2]))

    def e_data(self, x, f):
        return ("D", self.ty(x[1], f.ct), x[2], tuple(self.ev(a, f) for a in x[3]))

    def e_struct(self, x, f):
        return ("S", x[1][1], tuple(self.ev(a, f) for a in x[2]))

    def e_syntax(self, x, f):
        return ("syntax", self.ev(x[1], f))

    def e_seq(self, x, f):
        for s in x[1]:
            self.ev(s, f)
        return self.ev(x[2], f)

    def e_if(self, x, f):
        return self.ev(x[2] if self.decide(self.ev(x[1], f)) else x[3], f)

    def e_and(self, x, f):
        return self.ev(x[2], f) if self.decide(self.ev(x[1], f)) else ("k", 0)

    def e_or(self, x, f):
        return ("k", 1) if self.decide(self.ev(x[1], f)) else self.ev(x[2], f)

    def e_while(self, x, f):
        n = 0
        while self.decide(self.ev(x[1], f)):
            self.ev(x[2], f)
            n += 1
            if n >= LIMIT_LOOP:
                raise Halt("loop")
        return ("unit",)

    def e_return(self, x, f):
        raise Ret(self.ev(x[1], f))

    def e_never(self, x, f):
        raise Halt("never")

    def e_let(self, x, f):
        for i, _, e in x[1]:
            f.vars[i] = self.ev(e, f)
        return self.ev(x[2], f)

    def e_letcont(self, x, f):
        body, mine = x[2], {i: (ps, b) for i, ps, b in x[1]}
        while True:
            try:
                return self.ev(body, f)
            except Jump as j:
                if j.args[0] not in mine or j.args[2] is not f:
                    raise
                ps, body = mine[j.args[0]]
                if len(ps) != len(j.args[1]):
                    raise Bad("continuation %d takes %d arguments and is given %d" % (j.args[0], len(ps), len(j.args[1])))
                for (i, _), v in zip(ps, j.args[1]):
                    f.vars[i] = v

    def e_contcall(self, x, f):
        raise Jump(x[1], [self.ev(a, f) for a in x[2]], f)

    # ---- patterns (source only)
    def e_match(self, x, f):
        v = self.ev(x[1], f)
        for p, b in x[2]:
            binds = {}
            if self.matches(p, v, binds, f):
                f.vars.update(binds)
                return self.ev(b, f)
        raise Halt("never")

    def matches(self, p, v, binds, f):
        h = p[0]
        if h == "pvar":
            binds[p[1]] = v
            return p[3] is None or self.matches(p[3], v, binds, f)
        if h == "pwild":
            return True
        if h in ("pnull", "pnonnull"):
            if v[0] in ("null", "ptr"):
                null = v[0] == "null"
            else:
                null = self.decide(("isnull", self.obs(v)))
            if h == "pnull":
                return null
            return not null and (not binding(p[1]) or self.matches(p[1], self.load(v), binds, f))
        if h == "pderef":
            return not binding(p[1]) or self.matches(p[1], self.load(v), binds, f)
        if h == "psyntax":
            return not binding(p[1]) or self.matches(p[1], v[1] if v[0] == "syntax" else ("op", ("SyntaxBody",), (v,)), binds, f)
        if h == "pdata":
            if v[0] != "D":
                raise NotImplementedError("matching %s" % show(v))
            return v[2] == p[2] and all(self.matches(q, w, binds, f) for q, w in zip(p[3], v[3]))
        if h == "pconst":
            c = p[1]
            if c[1] == "unit":
                return True
            if c[1] in ("int", "char"):
                return self.decide(self.equal(self.obs(v), self.e_const(c, f)))
            return self.decide(("op", ("FEq" if c[1] == "fp" else "StringEq",), (self.obs(v), self.e_const(c, f))))
        raise KeyError(h)


def binding(p):
    """whether the pattern looks at the value"""
    return p[0] != "pwild"


def mentions(x, v):
    if isinstance(x, tuple) and len(x) == 3 and x[0] == "var" and x[1] == v:
        return True
    return isinstance(x, (tuple, list)) and any(mentions(y, v) for y in x)


def paths(defs, source, term, before=()):
    """[(conditions, events, how, value)]"""
    out, work = [], [[]]
    while work:
        ch = work.pop()
        m = Machine(defs, source, ch)
        f = Frame()
        try:
            how, v = "value", m.ev(term, f)
            v = m.obs(v)
        except Ret as r:
            how, v = "return", m.obs(r.args[0])
        except Jump as j:
            raise Bad("a jump to continuation %d, which is not in scope" % j.args[0])
        except Halt as h:
            how, v = h.args[0], None
        except Bad as b:
            how, v = "bad", b.args[0]
            if source:
                raise
        for s in f.slots.values():
            if s.shown and how in ("value", "return"):
                how, v = "bad", "a stack cell was handed to external code and dies with the function"
        out.append((m.pc, m.events, how, v))
        if len(out) > LIMIT_PATHS:
            raise NotImplementedError("too many paths")
        for i in range(len(ch), len(m.taken)):
            work.append(m.taken[:i] + [not m.taken[i]])
    return out


def compatible(p, q):
    m = dict(p)
    for c, b in q.items():
        if m.setdefault(c, b) != b:
            return False
    eqs = {}
    for c, b in m.items():
        if c[0] == "eq":
            if b and eqs.setdefault(c[1], c[2]) != c[2]:
                return False
            if c[1][0] == "leaf" and c[1][3] == "u1" and m.get(("eq", c[1], ("k", 1 - c[2][1]))) is b is False:
                return False
    return True


def text(pc):
    return " and ".join(("" if b else "not ") + "(%s)" % show(c) for c, b in pc.items()) or "always"


def compare(src, dst):
    """differences between the paths of the two sides"""
    for pc, ev, how, v in dst:
        if how == "bad":
            return ["%s, when %s" % (v, text(pc))], 0
    n = 0
    for p in src:
        hit = False
        for q in dst:
            if not compatible(p[0], q[0]):
                continue
            hit = True
            n += 1
            if p[1] != q[1]:
                return ["external calls %s instead of %s, when %s" % (evs(q[1]), evs(p[1]), text(p[0]))], n
            if p[2] != q[2] and not {p[2], q[2]} <= {"value", "return"}:
                return ["ends with %s instead of %s, when %s" % (q[2], p[2], text(p[0]))], n
            if p[3] != q[3]:
                return ["the value is %s instead of %s, when %s" % (show(q[3]), show(p[3]), text(p[0]))], n
        if not hit:
            return ["no path of the lowered program covers: %s" % text(p[0])], n
    return [], n


def evs(es):
    return "[%s]" % ", ".join("%s(%s)" % (e[1] if len(e) > 1 else e[0], ", ".join(show(x) for x in e[2]) if len(e) > 2 and isinstance(e[2], tuple) else "") for e in es)


class Types:
    """well-formedness of lowered definitions and terms: scopes, types, and no construct the back ends do not take"""

    def __init__(self, defs):
        self.defs, self.found, self.n = defs, [], 0

    def bad(self, s):
        if s not in self.found:
            self.found.append(s)

    def known(self, t, what):
        if isinstance(t, str):
            return
        if t[0] == "id":
            d = self.defs.get(t[1])
            if d is None:
                self.bad("%s: #%d is not among the definitions handed over" % (what, t[1]))
            elif d[0] not in ("struct", "union"):
                self.bad("%s: #%d is %s, not a type" % (what, t[1], d[0]))
        elif t[0] in ("ptr", "array", "syntax"):
            self.known(t[1], what)
        elif t[0] == "clos":
            for x in t[1]:
                self.known(x, what)
            self.known(t[2], what)
        else:
            self.bad("%s: type %s is left unresolved" % (what, t[0]))

    def same(self, a, b, what):
        self.n += 1
        if a is not None and b is not None and a != b:
            self.bad("%s has type %s instead of %s" % (what, a, b))

    def definition(self, i, d):
        w = "#%d" % i
        if d[0] == "function":
            env = {}
            if d[1]:
                env[d[1][0]] = "env"
            for j, t in (d[1][1] if d[1] else []) + d[2]:
                self.known(t, w)
                if j in env:
                    self.bad("%s: parameter %d occurs twice" % (w, j))
                env[j] = t
            self.known(d[3], w)
            self.once(d[4], w, frozenset(env))
            self.ret = d[3]
            t = self.ty(d[4], env, {}, w)
            self.same(t, d[3], "the body of " + w)
        elif d[0] == "struct":
            for t in d[2]:
                self.known(t, w)
        elif d[0] == "union":
            for t in d[1]:
                self.known(t, w)
        else:
            self.bad("%s: a definition of kind %s is handed over" % (w, d[0]))

    def once(self, x, w, scope=frozenset()):
        """no variable or continuation is defined again where it is in scope (the back ends keep one table per function)"""
        def put(scope, ids):
            for i in ids:
                if i in scope:
                    self.bad("%s: local identifier %d is defined again within its own scope" % (w, i))
                scope = scope | {i}
            return scope
        if isinstance(x, list):
            for y in x:
                self.once(y, w, scope)
        elif isinstance(x, tuple) and x:
            if x[0] == "let":
                for i, _, e in x[1]:
                    self.once(e, w, scope)
                    scope = put(scope, [i])
                self.once(x[2], w, scope)
            elif x[0] == "letcont":
                for i, ps, b in x[1]:
                    inner = put(scope, [j for j, _ in ps])
                    self.once(b, w, inner)
                    scope = put(scope, [i])
                self.once(x[2], w, scope)
            else:
                for y in x:
                    self.once(y, w, scope)

    def init(self, ty, x):
        self.known(ty, "the initialiser")
        self.once(x, "the initialiser")
        self.ret = ty
        self.same(self.ty(x, {}, {}, "the initialiser"), ty, "the initialiser")

    def ty(self, x, env, conts, w):
        h = x[0]
        T = lambda y: self.ty(y, env, conts, w)
        if h == "var":
            self.known(x[2], w)
            if x[1] not in env:
                self.bad("%s: variable %d is not in scope" % (w, x[1]))
                return x[2]
            self.same(x[2], env[x[1]], "%s: variable %d" % (w, x[1]))
            return x[2]
        if h == "const":
            if x[1] == "int":
                n = x[4] % (1 << 64)
                self.n += 1
                b = int(x[2][1:]) if isinstance(x[2], str) and x[2][1:].isdigit() else None
                if b is None:
                    self.bad("%s: an integer constant of type %s" % (w, x[2]))
                elif n >> b and n < (1 << 64) - (1 << b - 1):
                    self.bad("%s: the constant %d does not fit %s" % (w, n, x[2]))
            return {"int": x[2] if x[1] == "int" else None, "fp": x[2] if x[1] == "fp" else None, "str": "string", "char": "char", "unit": "unit"}[x[1]]
        if h == "fun":
            if not isinstance(x[1], int):
                self.bad("%s: function reference %s is left unresolved" % (w, x[1][0]))
                return x[2]
            d = self.defs.get(x[1])
            if d is None or d[0] != "function":
                self.bad("%s: function #%d is not among the definitions handed over" % (w, x[1]))
                return x[2]
            self.same(x[2], ("clos", tuple(t for _, t in d[2]), d[3]), "%s: function #%d" % (w, x[1]))
            if x[3] is not None:
                self.same(T(x[3]), "env", "%s: the environment of #%d" % (w, x[1]))
            if (d[1] is None) != (x[3] is None):
                self.bad("%s: function #%d %s an environment and is referred to with%s one" % (w, x[1], "takes" if d[1] else "takes no", "" if x[3] else "out"))
            return x[2]
        if h == "call":
            if x[1] == "std":
                c = T(x[2])
                args = [T(a) for a in x[4]]
                if c is None:
                    return None
                if c[0] != "clos" or len(c[1]) != len(args):
                    self.bad("%s: a call of %s with %d arguments" % (w, c, len(args)))
                    return None
                for a, p in zip(args, c[1]):
                    self.same(a, p, "%s: an argument" % w)
                return c[2]
            if x[1] != "c":
                T(x[2])
            for a in x[4]:
                T(a)
            if x[3]:
                self.known(x[3], w)
            return x[3] or "u1"
        if h == "contcall":
            args = [T(a) for a in x[2]]
            if x[1] not in conts:
                self.bad("%s: continuation %d is not in scope" % (w, x[1]))
                return x[3]
            ps, t = conts[x[1]]
            if len(ps) != len(args):
                self.bad("%s: continuation %d takes %d arguments and is given %d" % (w, x[1], len(ps), len(args)))
            for a, (_, p) in zip(args, ps):
                self.same(a, p, "%s: an argument of continuation %d" % (w, x[1]))
            if (t is None) != (x[3] is None):
                self.bad("%s: continuation %d %s and is called as if it %s" % (w, x[1], "does not return" if t is None else "returns", "did not" if x[3] is None else "did"))
            self.same(x[3], t, "%s: the result of continuation %d" % (w, x[1]))
            return x[3]
        if h == "nullary":
            o = x[1]
            if len(o) > 1:
                self.known(o[1], w)
            return {"Uninitialized": lambda: o[1], "Null": lambda: ("ptr", o[1]), "GenId": lambda: "string"}.get(o[0], lambda: "u64")()
        if h == "unary":
            return self.unary(x, T(x[2]), w)
        if h == "binary":
            return self.binary(x, T(x[2]), T(x[3]), w)
        if h == "ternary":
            for a in x[2:]:
                T(a)
            return "unit"
        if h == "alloc":
            t = T(x[2])
            return t and ("ptr", t)
        if h == "allocarray":
            self.known(x[2], w)
            T(x[3])
            return ("array", x[2])
        if h == "env":
            for a in x[2]:
                T(a)
            return "env"
        if h == "struct":
            args = [T(a) for a in x[2]]
            d = self.defs.get(x[1][1]) if x[1][0] == "id" else None
            if not d or d[0] != "struct":
                self.bad("%s: %s is constructed and is no struct handed over" % (w, x[1]))
            elif len(d[2]) != len(args):
                self.bad("%s: struct #%d has %d fields and is given %d" % (w, x[1][1], len(d[2]), len(args)))
            else:
                for i, (a, t) in enumerate(zip(args, d[2])):
                    self.same(a, t, "%s: field %d of #%d" % (w, i, x[1][1]))
            return x[1]
        if h == "syntax":
            t = T(x[1])
            return t and ("syntax", t)
        if h == "seq":
            for s in x[1]:
                T(s)
            return T(x[2])
        if h == "if":
            self.same(T(x[1]), "u1", "%s: a condition" % w)
            a, b = T(x[2]), T(x[3])
            self.same(a, b, "%s: the second branch" % w)
            return a or b
        if h == "while":
            self.same(T(x[1]), "u1", "%s: a condition" % w)
            T(x[2])
            return "unit"
        if h == "return":
            self.same(T(x[1]), self.ret, "%s: a returned value" % w)
            return None
        if h == "never":
            return None
        if h == "let":
            env = dict(env)
            for i, t, e in x[1]:
                self.known(t, w)
                self.same(self.ty(e, env, conts, w), t, "%s: variable %d" % (w, i))
                env[i] = t
            return self.ty(x[2], env, conts, w)
        if h == "letcont":
            conts = dict(conts)
            for i, ps, b in x[1]:
                for _, t in ps:
                    self.known(t, w)
                conts[i] = (ps, self.ty(b, dict(env, **{}) | dict(ps), conts, w))
            t = self.ty(x[2], env, conts, w)
            for i, ps, b in x[1]:
                self.same(conts[i][1], t, "%s: continuation %d" % (w, i))
            return t
        self.bad("%s: a %s term is left in the lowered program" % (w, h))
        return None

    def unary(self, x, t, w):
        o = x[1]
        for a in o[1:]:
            if not isinstance(a, int):
                self.known(a, w)
        if o[0] == "Not":
            self.same(t, "u1", "%s: a negated value" % w)
            return "u1"
        if o[0] == "Load":
            if t is not None and t[0] != "ptr":
                self.bad("%s: a load through %s" % (w, t))
            return t and t[1]
        if o[0] == "StructElem":
            if t is None:
                return o[1]
            d = self.defs.get(t[1]) if t[0] == "id" else None
            if not d or d[0] != "struct" or o[2] >= len(d[2]):
                self.bad("%s: field %d of %s" % (w, o[2], t))
            else:
                self.same(o[1], d[2][o[2]], "%s: field %d of #%d" % (w, o[2], t[1]))
            return o[1]
        if o[0] == "Reinterpret":
            if t is not None:
                def members(a):
                    d = self.defs.get(a[1]) if a[0] == "id" else None
                    return d[1] if d and d[0] == "union" else ()
                if o[1] not in members(t) and t not in members(o[1]) and t != o[1]:
                    self.bad("%s: %s is reinterpreted as %s" % (w, t, o[1]))
            return o[1]
        if o[0] == "SyntaxBody":
            return t and t[1]
        if o[0] == "Panic":
            return None
        if o[0] in ("IComplement", "IPopCount") or o[0].startswith(("Real", "Math")):
            return t
        if o[0] in ("StringPtr", "ArrayPtr"):
            return ("ptr", "u8" if o[0][0] == "S" else t[1])
        if o[0] == "IToPtr":
            return ("ptr", o[1])
        return o[1] if len(o) > 1 else "u64"

    def binary(self, x, a, b, w):
        n = x[1][0]
        if n == "Store":
            if b is not None and a is not None:
                self.same(b, ("ptr", a), "%s: the target of a store" % w)
            return "unit"
        if n == "Offset":
            return b
        if n in ("ArrayConstruct", "ArrayLoad"):
            return ("array", a[1]) if n == "ArrayConstruct" else b[1]
        if n not in ("IShl", "IAShr", "ILShr", "StringConstruct"):
            self.same(b, a, "%s: the second operand of %s" % (w, n))
        if n in ("PtrEq", "PtrLt", "PtrLe", "PtrGt", "PtrGe", "IEq", "StringEq") or n[1:] in ("Lt", "Le", "Gt", "Ge", "Eq"):
            return "u1"
        return {"StringConstruct": "string", "StringCmp": "s32", "StringConcat": "string"}.get(n, a)
