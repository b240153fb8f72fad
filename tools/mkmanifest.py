#!/usr/bin/env python3
"""Regenerates MANIFEST.json from units.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from units import CHECKS
try:
    from units import NOT_APPLICABLE
except ImportError:
    NOT_APPLICABLE = {}
props = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if p in CHECKS:
        c = CHECKS[p]
        checks.append(dict(property=p, quick_cmd="python3 run.py %s quick" % p, thorough_cmd="python3 run.py %s thorough" % p, evidence_file="evidence/%s.json" % p, technique=c["technique"], level=c["level"],
                           level_note=c.get("level_note") or ("Exhaustive within the bounds: " + c["bounds"] + ". Assumes: " + "; ".join(c.get("assumptions", [])) + ".")))
    else:
        na.append(dict(property=p, reason=NOT_APPLICABLE.get(p, "no check yet")))
m = dict(version=1, setup_cmd="python3 run.py list", checks=checks, not_applicable=na,
         notes="Every check compiles its harnesses from /repo's current tree (headers only); nothing is cached between runs. Replay a violation with: python3 run.py replay <file>.")
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not claimed")
