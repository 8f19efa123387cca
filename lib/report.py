"""Check result plumbing: violations, known findings, evidence."""
import json, os, sys, time, traceback
from facts import VERIF, BuildError

KNOWN = os.path.join(VERIF, "known-findings.txt")


class Check:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.t0 = time.time()
        self.violations = []       # (key, text)
        self.counts = {}
        self.rules = []
        self.notes = []
        self.obligations = 0
        self.discharged = 0

    def rule(self, text):
        self.rules.append(text)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def floor(self, name, least):
        """The analysis must have seen at least the number of instances confirmed by hand."""
        n = self.counts.get(name, 0)
        if n < least:
            self.violate("floor:" + name, "analysis saw only %d instance(s) of '%s', expected at least %d: anchor lost" % (n, name, least))

    def oblige(self, ok, key, text):
        self.obligations += 1
        if ok:
            self.discharged += 1
        else:
            self.violate(key, text)
        return ok

    def violate(self, key, text):
        self.violations.append((key, text))

    def note(self, t):
        self.notes.append(t)


def known_for(prop):
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("known: property=%s " % prop):
                rest = line.split(" ", 2)[2]
                key, _, text = rest.partition(" ")
                assert key.startswith("key=")
                out[key[4:]] = text
    return out


def finish(ck, level="other"):
    known = known_for(ck.prop)
    seen = set()
    new = []
    for key, text in ck.violations:
        k = key.replace(" ", "_")
        if k in known:
            if k not in seen:
                print("KNOWN-FINDING: property=%s %s" % (ck.prop, known[k]))
            seen.add(k)
        else:
            new.append((k, text))
    ev = os.path.join(VERIF, "evidence")
    os.makedirs(ev, exist_ok=True)
    rep = os.path.join(ev, ck.prop + ".report.txt")
    with open(rep, "w") as fh:
        fh.write("property %s tier %s\n" % (ck.prop, ck.tier))
        for r in ck.rules:
            fh.write("rule: %s\n" % r)
        for k, v in sorted(ck.counts.items()):
            fh.write("analysed: %s = %d\n" % (k, v))
        for k, t in new:
            fh.write("violation [%s]: %s\n" % (k, t))
    expl = ("Static decision from /repo's current source. " + " ".join(ck.rules) + " Analysed: "
            + ", ".join("%s=%d" % kv for kv in sorted(ck.counts.items())) + "."
            + (" " + " ".join(ck.notes) if ck.notes else ""))
    cov = {"explanation": expl, "obligations": ck.obligations, "discharged": ck.discharged}
    cov.update({"n_" + k.replace(" ", "_").replace("-", "_"): v for k, v in ck.counts.items()})
    doc = {"property": ck.prop, "tier": ck.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": level,
           "coverage": cov, "wall_s": round(time.time() - ck.t0, 3)}
    with open(os.path.join(ev, ck.prop + ".json"), "w") as fh:
        json.dump(doc, fh, indent=1)
    for k, t in new[:40]:
        print("violation [%s]: %s" % (k, t))
    if new:
        print("VIOLATION property=%s replay=%s" % (ck.prop, rep))
        return 1
    print("OK property=%s %s" % (ck.prop, ", ".join("%s=%d" % kv for kv in sorted(ck.counts.items()))))
    return 0


def main(prop, fn, tier, level="other"):
    ck = Check(prop, tier)
    try:
        fn(ck)
    except BuildError as e:
        ck.violate("build", "the current source could not be analysed: %s" % e)
    except Exception:
        ck.violate("internal", "analysis failed on the current source: " + traceback.format_exc()[-3000:])
    return finish(ck, level)
