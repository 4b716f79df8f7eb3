#!/usr/bin/env python3
"""Writes MANIFEST.json from the specs and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from specs import SPECS, NOT_APPLICABLE
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in SPECS and not SPECS[i].get("pending"):
        s = SPECS[i]
        checks.append({
            "property": i, "quick_cmd": "python3 run.py %s --tier quick" % i, "thorough_cmd": "python3 run.py %s --tier thorough" % i,
            "technique": s.get("technique", "symbolic execution of the library's LLVM IR, obligations decided by Z3"), "level": "model_checking",
            "level_note": "Holds for every value within these bounds: %s. Outside: %s. Assumes: %s." % (s["bounds"], s.get("outside") or "nothing else", "; ".join(s.get("assumptions", [])) or "the compiler and the executor's model of the C++ runtime"),
        })
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "check under construction")})
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo. known_findings.json lists the defects recorded and repaired."}, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed:", " ".join(x["property"] for x in na))
