#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
D = os.path.dirname(os.path.abspath(__file__))
from run import WHERE
NOTE = {}
TECH = {}
GR = "TLA+ state graph (TLC) replayed on the real class"
TV = "recorded executions validated by a TLA+ trace specification"
def t(p, tech, note):
    TECH[p], NOTE[p] = tech, note

exec(open(os.path.join(D, "claims.py")).read())

props = [json.loads(l)["id"] for l in open(os.path.join(D, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if p in WHERE and p not in NOT:
        checks.append({"property": p, "quick_cmd": "python3 run.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + p,
                       "evidence_file": "evidence/%s.json" % p, "technique": TECH[p], "level": "model_checking", "level_note": NOTE[p]})
    else:
        na.append({"property": p, "reason": NOT.get(p, "check not built yet")})
m = {"version": 1, "setup_cmd": "sh setup.sh", "checks": checks, "not_applicable": na,
     "notes": "Specifications in spec/ (TLA+, checked with TLC), harnesses in harness/, checks in vp/checks/. No hooks in /repo."}
json.dump(m, open(os.path.join(D, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(D, "MANIFEST.json"), "a").write("\n")
