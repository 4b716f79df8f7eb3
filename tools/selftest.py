#!/usr/bin/env python3
"""The engine on pieces of the standard library (harness/SELF.cpp): every entry has to end without an error or an alarm."""
import concurrent.futures as cf, json, os, re, subprocess, sys
import build

exe, bc, _ = build.prepare("SELF.cpp", native=False)
text = open(os.path.join(build.VERIF, "harness", "SELF.cpp")).read()
entries = sys.argv[1:] or re.findall(r'extern "C" void (\w+)\(\)', text)


def one(e):
    r = subprocess.run([exe, "--bc", bc, "--entry", e, "--time", "60"], capture_output=True, text=True)
    d = next((json.loads(l) for l in r.stdout.splitlines() if l.startswith("{")), {})
    good = d.get("ends") and set(d["ends"]) <= {"done", "assumption"} and not d.get("errors") and not d.get("violations")
    return e, good, d.get("ends"), d.get("errors"), [v.get("msg") for v in d.get("violations", [])]


with cf.ThreadPoolExecutor(build.JOBS) as ex:
    rs = list(ex.map(one, entries))
for r in rs:
    print("ok" if r[1] else "FAIL", *([r[0]] if r[1] else [r[0], *r[2:]]))
sys.exit(0 if all(r[1] for r in rs) else 1)
