#!/usr/bin/env python3
"""writes MANIFEST.json from the list of claimed properties"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
VERUS = "Verus contracts on the mechanically extracted functions (deductive, unbounded); executable contracts replay failures"
NOTE = {}
exec(open(V + "/tools/claims.py").read())
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMS:
        tech, level, note = CLAIMS[i]
        checks.append({"property": i, "quick_cmd": "./check %s" % i, "thorough_cmd": "./check %s --thorough" % i, "evidence_file": "evidence/%s.json" % i, "technique": tech, "level": level, "level_note": note})
    else:
        na.append({"property": i, "reason": NA.get(i, "no machinery yet")})
json.dump({"version": 1, "setup_cmd": "./setup", "checks": checks, "not_applicable": na, "notes": "No hooks in /repo are needed: private functions are reached through the extraction, public ones through the runtime harness."}, open(V + "/MANIFEST.json", "w"), indent=1)
