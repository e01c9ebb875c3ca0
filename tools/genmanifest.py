#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props import PROPS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for i in ids:
    if i not in PROPS:
        continue
    p = PROPS[i]
    hs = ", ".join(h["name"] for h in p["harnesses"])
    checks.append({
        "property": i,
        "quick_cmd": "python3 check.py %s quick" % i,
        "thorough_cmd": "python3 check.py %s thorough" % i,
        "technique": "contract-based deductive verification of the real Go code (SSA) with inferred inductive invariants",
        "level": p.get("level", "proof"),
        "level_note": p.get("note", "Every obligation of the contracts (harness %s) is generated from /repo's source and discharged on every run, for all inputs and all iterations; concrete inputs are searched only to turn a failed obligation into a failing input." % hs),
    })
m = {"version": 1, "setup_cmd": "sh setup.sh", "checks": checks,
     "not_applicable": [{"property": i, "reason": NOT_APPLICABLE.get(i, "no check yet: the contracts of this part are not written")} for i in ids if i not in PROPS]}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
