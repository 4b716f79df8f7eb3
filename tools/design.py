#!/usr/bin/env python3
"""Rewrites the generated part of DESIGN.md (bounds, costs) from the specs, properties and the last evidence."""
import glob, json, os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from specs import SPECS
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = []
for l in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    if i not in SPECS: continue
    s = SPECS[i]
    entries = sorted({x["entry"] for x in s["instances"]})
    cost = ""
    e = os.path.join(ROOT, "evidence", i + ".json")
    if os.path.exists(e):
        d = json.load(open(e))
        cost = " Last run (%s): %.0f s." % (d.get("tier", "quick"), d.get("wall_s", d.get("coverage", {}).get("wall_s", 0)))
    out.append("**%s %s.** `harness/%s`, entries %s (%d instances quick, %d thorough). Bounds: %s. Outside: %s.\n" % (
        i, p["title"], s["harness"], ", ".join("`%s`" % x for x in entries), sum(x.get("tier", "quick") == "quick" for x in s["instances"]), len(s["instances"]), s["bounds"], s.get("outside") or "nothing else"))
t = open(os.path.join(ROOT, "DESIGN.md")).read()
a, b = "<!-- generated: bounds -->\n", "<!-- end -->"
t = t[:t.index(a) + len(a)] + "\n".join(out) + t[t.index(b):]
open(os.path.join(ROOT, "DESIGN.md"), "w").write(t)
