#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that statements are edited in one place)."""
import json, os
P = []

def p(id, title, statement, over, text, why, files, comps, **kw):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
         "why_tests_cant": why, "anchors": {"files": files, "components": comps}}
    d.update(kw)
    P.append(d)

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props.py")).read())
with open("/verif/properties.jsonl", "w") as fh:
    for d in P:
        assert len(d["title"]) <= 80, d["title"]
        fh.write(json.dumps(d) + "\n")
print(len(P))
