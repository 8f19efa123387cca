"""The constructs the language reserves: the table of their names that the compiler builds when it starts."""
import ast as pyast
import re
from absint import Engine, State


class Unread(Exception):
    pass


def template(v):
    """the text a formatting of known values makes"""
    if v[0] == "s":
        return v[1]
    if v[0] == "app" and v[1].endswith(("must_use", "fmt::format")) and len(v[2]) == 1:
        return template(v[2][0])
    if v[0] == "app" and v[1].startswith("std::fmt::Arguments") and len(v[2]) == 2:
        t, args = v[2]
        if t[0] == "app" and t[1] == "*":
            t = t[2][0]
        if t[0] == "app" and t[1].startswith('const:b"') and args[0] == "arr":
            bs, out, i, n = pyast.literal_eval(t[1][6:]), "", 0, 0
            while i < len(bs) and bs[i]:
                if bs[i] < 0x80:
                    out += bs[i + 1:i + 1 + bs[i]].decode()
                    i += 1 + bs[i]
                elif bs[i] == 0xc0 and n < len(args[1]):
                    a = args[1][n]
                    if not (a[0] == "app" and a[1].endswith("new_display") and a[2][0][0] in ("i", "s")):
                        raise Unread("a formatted value that is not known: %s" % str(a)[:200])
                    out += str(a[2][0][1])
                    n += 1
                    i += 1
                else:
                    raise Unread("a format that is not known")
            return out
    raise Unread("a name that is not known: %s" % str(v)[:200])


def node(v):
    """(module, index) of an identifier"""
    while v[0] == "adt" and v[4]:
        v = v[4][0]
    if v[0] != "i":
        raise Unread("an identifier that is not known: %s" % str(v)[:200])
    return v[1] & 0xffffffff, v[1] >> 32


def run(mir, path, args=()):
    e = Engine(mir, None, max_visits=200)
    rs = e.call_fn(State(), path, list(args), ())
    if len(rs) != 1 or e.cuts or e.panics:
        raise Unread("%s has more than one outcome" % path)
    return e.through(rs[0][0], rs[0][1]), e


_cache = {}


def table(mir):
    """name -> (kind of construct, (module, index)), and the functions analysed"""
    if id(mir) in _cache:
        return _cache[id(mir)][1:]
    ps = [p for p in mir.fns if "RESERVED_CONSTRUCTS::{closure" in p]
    if len(ps) != 1:
        raise Unread("the table of reserved constructs is not found")
    v, e = run(mir, ps[0], [("un",)])
    if v[0] != "map":
        raise Unread("the table of reserved constructs is not known: %s" % str(v)[:200])
    t = {template(k): (c[3], node(c)) for k, c in v[2]}
    _cache[id(mir)] = (mir, t, set(e.analysed) | {ps[0]})
    return t, _cache[id(mir)][2]
