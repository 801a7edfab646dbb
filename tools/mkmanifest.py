"""Writes MANIFEST.json: one entry per property that has a check; the others are listed as not applicable (yet)."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, V)
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
from tools.techniques import TECH
checks, na = [], []
for p in props:
    i = p["id"]
    if i in TECH:
        t, note = TECH[i]
        checks.append(dict(property=i, quick_cmd="./check %s quick" % i, thorough_cmd="./check %s thorough" % i,
                           evidence_file="evidence/%s.json" % i, technique=t, level="model_checking", level_note=note))
    else:
        na.append(dict(property=i, reason="check not built yet"))
m = dict(version=1, setup_cmd="./check setup", checks=checks, not_applicable=na,
         notes="All checks: ./check <property> quick|thorough. Specifications in spec/, drivers in vf/, executors in harness/. No hooks in /repo are needed: the public API exposes the state.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
