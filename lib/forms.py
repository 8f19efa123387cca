"""Rules of syntax-directed passes: one form at a time, with the parts of the form left abstract."""
from absint import *
import absint
from facts import Mir
import iomodel, stdmodels


class Bad(Exception):
    """the pass is not in a shape the rule extraction can follow"""


PURE = ("std::ops::Drop>::drop", "BuildSatisfactionError::no_matching_instances", "BuildSatisfactionError::required_for", "BuildSatisfactionError::recursion_limit_exceeded")


def lost(e):
    """calls that were not followed and that may have changed something: what comes after them is not known"""
    x = sorted(k for k in e.lost if not k.endswith(PURE))
    if x:
        raise Bad("calls that cannot be followed: %s" % ", ".join(x[:4]))


class Ast:
    """values of named types: S("Expr", "llrl::ast::expr", id=.., rep=..)"""

    def __init__(self, mir, e, st):
        self.mir, self.e, self.st = mir, e, st
        self.phantom = None

    def box(self, v):
        return self.e.new_cell(self.st, v)

    def enum(self, path, var, *fields):
        a = self.mir.adts.get(path)
        if a is None:
            raise Bad("no type " + path)
        for i, v in enumerate(a["variants"]):
            if v["n"] == var:
                if len(v["fields"]) != len(fields):
                    raise Bad("%s::%s has %d fields" % (path, var, len(v["fields"])))
                return ("adt", path, i, var, tuple(fields))
        raise Bad("no %s::%s" % (path, var))

    def struct(self, path, /, **kw):
        a = self.mir.adts.get(path)
        if a is None:
            raise Bad("no type " + path)
        fs = [f["n"] for f in a["variants"][0]["fields"]]
        if set(fs) != set(kw):
            raise Bad("%s has fields %s" % (path, fs))
        return ("adt", path, 0, "", tuple(kw[f] for f in fs))

    def nid(self, n, mid=1):
        if self.phantom is None:
            p = "llrl::ast::node_id::NodeId"
            q = [x for x in self.mir.fns if x.startswith(p) and x.endswith("::new_unchecked")]
            (s, v), = self.e.call_fn(self.st, q[0], [("adt", "llrl::ast::node_id::ModuleId", 0, "", (I(1, "u32"),)), I(1, "u32")], (UNIT_TY,))
            self.phantom = v
        return self.phantom[:4] + ((I(mid | n << 32, "u64"),) + self.phantom[4][1:],)

    def opt(self, v):
        return NONE if v is None else some(v)


UNIT_TY = ("tuple", ())


def idnum(v):
    """(module, index) of a NodeId value"""
    if v[0] == "adt" and v[1].endswith("NodeId") and v[4][0][0] == "i":
        return v[4][0][1] & 0xffffffff, v[4][0][1] >> 32
    return None


def fields(mir, v):
    if v[0] != "adt":
        raise Bad("a structure that is not known: %s" % str(v)[:300])
    a = mir.adts[v[1]]
    return dict(zip([f["n"] for f in a["variants"][v[2]]["fields"]], v[4]))


def _struct2(self, path, *vals):
    if path not in self.mir.adts:
        raise Bad("no type " + path)
    return ("adt", path, 0, "", tuple(vals))


Ast.struct2 = _struct2
