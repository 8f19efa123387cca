#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from tools/claims.py."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
ns = {}
exec(open(os.path.join(here, "claims.py")).read(), ns)
props = [json.loads(l) for l in open(os.path.join(here, "..", "properties.jsonl"))]
ids = [d["id"] for d in props]
checks, na = [], []
for i in ids:
    if i in ns["CLAIMS"]:
        tech, note = ns["CLAIMS"][i]
        checks.append({"property": i, "quick_cmd": "python3 run.py %s" % i, "thorough_cmd": "python3 run.py %s --tier thorough" % i,
                       "technique": tech, "level": "other", "level_note": note})
    else:
        na.append({"property": i, "reason": ns["NA"][i]})
doc = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
       "notes": "Static analysis only: facts are extracted from the type-checked MIR of /repo's current tree (rustc_private driver in mirdump/), from its llrl sources and from clang's view of rt/rt.c; see DESIGN.md."}
json.dump(doc, open(os.path.join(here, "..", "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "n/a")
