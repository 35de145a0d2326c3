#!/usr/bin/env python3
"""Writes MANIFEST.json from registry.py and properties.jsonl."""
import json, os
from registry import CHECKS, NOT_APPLICABLE
D = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(D, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 /verif/setup_check.py", "checks": [], "not_applicable": [],
     "notes": "Solver-based checking of the real code; see DESIGN.md. No hooks in /repo: harnesses are compiled into the module with go's -overlay."}
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 /verif/check.py %s --tier quick" % i,
                            "thorough_cmd": "python3 /verif/check.py %s --tier thorough" % i,
                            "evidence_file": "evidence/%s.json" % i,
                            "technique": c["technique"], "level": c["level"], "level_note": c["level_note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE.get(i, "no check has been built for it yet")})
json.dump(m, open(os.path.join(D, "MANIFEST.json"), "w"), indent=1)
