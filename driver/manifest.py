#!/usr/bin/env python3
"""Writes MANIFEST.json from specs.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/driver")
import specs
allp = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
NA = getattr(specs, "NA", {})
checks = []
for p in allp:
    if p not in specs.QUICK:
        continue
    c = {"property": p, "quick_cmd": "./check.sh " + p, "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + p,
         "evidence_file": "evidence/%s.json" % p,
         "technique": "symbolic execution of the real Go code (SSA) with an SMT solver (z3), schedules, faults and inputs as solver variables",
         "level": specs.LEVEL, "level_note": specs.NOTE.get(p, specs.NOTE_ALL)}
    checks.append(c)
m = {"version": 1, "setup_cmd": "./build.sh", "checks": checks,
     "not_applicable": [{"property": p, "reason": NA.get(p, "no check built yet")} for p in allp if p not in specs.QUICK],
     "notes": "No hooks in /repo: harnesses enter through a build overlay and use the exported API only."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
