#!/usr/bin/env python3
"""run.py PROPERTY [--tier quick|thorough]: decides one property on /repo's current working tree."""
import argparse, concurrent.futures as cf, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import build
from specs import SPECS

T0 = time.time()


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p))["findings"] if os.path.exists(p) else []


def run_instance(exe, bc, inst, tier, outdir, deadline):
    name = inst["entry"] + "".join("-%s%s" % kv for kv in sorted(inst.get("p", {}).items()))
    out = os.path.join(outdir, name + ".json")
    if os.path.exists(out):
        os.unlink(out)
    if time.time() > deadline + (120 if tier == "quick" else 600):
        return {"errors": ["time limit reached before it began"], "violations": [], "witnesses": [], "reached": {}, "paths": 0, "_inst": inst, "_name": name, "_wall": 0, "_cmd": []}
    left = max(2.0, deadline - time.time())
    limit = min(inst.get("time", 30 if tier == "quick" else 300), left)
    cmd = [exe, "--bc", bc, "--entry", inst["entry"], "--out", out, "--repo", build.REPO, "--time", str(limit),
           "--witnesses", str(inst.get("witnesses", 2)), "--max-violations", str(inst.get("max_violations", 3)),
           "--query-ms", str(inst.get("query_ms", 10000 if tier == "quick" else 60000)), "--seed", os.environ.get("VERIF_SEED", "1")]
    for k, v in inst.get("p", {}).items():
        cmd += ["-p", "%s=%d" % (k, v)]
    cmd += inst.get("opt", [])
    t = time.time()
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=limit + 60)
        err = r.stderr[-2000:]
    except subprocess.TimeoutExpired:
        err = "engine did not stop within its time limit"
    rep = json.load(open(out)) if os.path.exists(out) else {"errors": ["engine failed: " + err], "violations": [], "witnesses": [], "reached": {}, "paths": 0}
    rep["_inst"] = inst
    rep["_name"] = name
    rep["_wall"] = time.time() - t
    rep["_cmd"] = cmd
    return rep


def write_values(path, inputs, header=""):
    with open(path, "w") as f:
        for l in inputs:
            f.write(l + "\n")
    if header:
        open(path + ".txt", "w").write(header)


def native_run(exe, inst, values, extra=(), timeout=40):
    cmd = [exe, inst["entry"], values]
    for k, v in list(inst.get("p", {}).items()) + list(extra):
        cmd += ["-p", "%s=%d" % (k, v)]
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=0:max_allocation_size_mb=4096", UBSAN_OPTIONS="halt_on_error=1:exitcode=77:print_stacktrace=0")
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env, errors="replace", cwd="/tmp")
        return r.returncode, r.stdout.decode(errors="replace") if isinstance(r.stdout, bytes) else r.stdout
    except subprocess.TimeoutExpired:
        return "timeout", ""


# what the model of threads decides by itself, whatever the schedule a native run gets
TRUSTED = r"^(std::terminate called|(join|detach) of a thread that is not joinable)"
MEMKINDS = ("memory", "overflow", "undefined", "arith", "division")


def confirm(prop, harness, natives, inst, v, values):
    """Replays a counterexample against the real code. Returns a description, or None when it does not reproduce."""
    rc, out = native_run(natives["plain"], inst, values)
    if v["kind"] == "finding":
        for seed in range(0, 100):
            if seed:
                rc, out = native_run(natives["plain"], inst, values, [("__seed", seed)], timeout=25)
            if ("FINDING " + v["msg"]) in out:
                return "native replay%s: %s" % (" (float inputs drawn again, seed %d)" % seed if seed else "", v["msg"])
        return None
    if rc == 10:
        return "native replay: " + "; ".join(l for l in out.splitlines() if l.startswith("FAIL"))[:300]
    if rc == "timeout" or rc == -14:
        return "native replay does not terminate" if v["kind"] == "hang" else None
    if rc not in (0, 11):
        return "native replay ends with status %s: %s" % (rc, out[-300:].replace("\n", " | "))
    if v["kind"] == "assertion":
        # the model may rest on uninterpreted functions or exact arithmetic: same path choices, other float values
        for seed in range(1, 201):
            rc, out = native_run(natives["plain"], inst, values, [("__seed", seed)], timeout=25)
            if rc == 10:
                open(values, "a").write("# replay with -p __seed=%d\n" % seed)
                return "native replay (float inputs drawn again, seed %d): %s" % (seed, "; ".join(l for l in out.splitlines() if l.startswith("FAIL"))[:300])
            if rc not in (0, 11, 10):
                break
        return None
    # memory and undefined behaviour: instrumented build
    exe = natives.get("asan")
    if exe is None:
        exe = natives["asan"] = build.native(harness, "asan")
    rc, out = native_run(exe, inst, values, timeout=60)
    if rc not in (0, 11):
        m = re.search(r"(runtime error: .*|ERROR: AddressSanitizer: .*|Assertion .*)", out)
        return "instrumented replay: " + (m.group(1)[:300] if m else "status %s" % rc)
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--only")
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    prop, tier = a.prop, a.tier
    spec = SPECS[prop]
    harness = spec.get("harness", prop + ".cpp")
    try:
        exe, bc, natives = build.prepare(harness)
    except build.BuildError as e:
        print("ERROR property=%s %s" % (prop, str(e)[-3000:]))
        return 2
    tbuild = time.time() - T0
    insts = [i for i in spec["instances"] if tier == "thorough" or i.get("tier", "quick") == "quick"]
    if a.only:
        insts = [i for i in insts if re.search(a.only, i["entry"] + str(i.get("p", "")))]
    outdir = os.path.join(build.BUILD, "run", prop + "-" + tier)
    os.makedirs(outdir, exist_ok=True)
    deadline = time.time() + spec.get("budget", {}).get(tier, 60 if tier == "quick" else 600)
    insts = sorted(insts, key=lambda i: -i.get("cost", 1))
    with cf.ThreadPoolExecutor(build.JOBS) as ex:
        reps = list(ex.map(lambda i: run_instance(exe, bc, i, tier, outdir, deadline), insts))

    known = [k for k in load_known() if k["property"] == prop and k.get("status", "open") == "open"]
    repdir = os.path.join(build.BUILD, "replay")
    os.makedirs(repdir, exist_ok=True)
    violations, knownhit, unconfirmed, undecided, fatal = [], {}, [], [], []
    n = 0
    # every instance's first violation is confirmed before anyone's second
    order = sorted(((k, i) for i, r in enumerate(reps) for k in range(len(r["violations"]))), key=lambda x: x)
    for k, i in order:
        r = reps[i]
        inst = r["_inst"]
        for v in r["violations"][k:k + 1]:
            hit = next((k for k in known if re.search(k["entry"], r["_name"]) and re.search(k["msg"], v["msg"]) and re.search(k.get("kind", ""), v["kind"])), None)
            if hit is not None:
                knownhit.setdefault(hit["id"], hit)
                continue
            n += 1
            values = os.path.join(repdir, "%s-%s-%d.values" % (prop, tier, n))
            write_values(values, v["inputs"])
            if time.time() - T0 > 500 or len(violations) >= 3 or len(unconfirmed) >= 16 or (violations and len(unconfirmed) >= 6):
                continue
            how = confirm(prop, harness, natives, inst, v, values)
            if how is None and spec.get("trust_model") and (v["kind"] in spec["trust_model"] or re.search(TRUSTED, v["msg"])):
                how = "schedule of the encoded code (not replayed natively)"
            with open(values, "a") as f:
                f.write("# property %s, %s: %s\n# %s\n# at %s\n# %s\n" % (prop, r["_name"], v["kind"], v["msg"], v["loc"], how or "did not reproduce"))
                f.write("# replay: python3 tools/replay.py %s %s VALUES %s\n" % (harness, inst["entry"], " ".join("-p %s=%d" % kv for kv in inst.get("p", {}).items())))
            (violations if how else unconfirmed).append((v, r["_name"], values, how))
    for r in reps:
        inst = r["_inst"]
        for e in r["errors"]:
            undecided.append(r["_name"] + ": " + e)
        want = inst.get("reach", ["end"])
        if all(v["kind"] == "finding" for v in r["violations"]):
            for w in want:
                if not r["reached"].get(w) and any("time limit" in e for e in r["errors"]):
                    undecided.append("%s: %s not reached in time" % (r["_name"], w))
                elif not r["reached"].get(w):
                    fatal.append("%s: %s not reached (%s)" % (r["_name"], w, "; ".join(r["errors"])[:300] or json.dumps(r.get("ends"))[:300]))
    said = set(v["msg"] for r in reps for v in r["violations"] if v["kind"] == "finding")
    undecided = [u for u in undecided if not any("undecided: finding: " + m in u for m in said)]
    # traces: the solver's models of complete paths, executed by the real code
    validated, diverged, traces, rounded = 0, [], [], 0

    def one(r, i, w):
        values = os.path.join(outdir, "%s-w%d.values" % (r["_name"], i))
        write_values(values, w["inputs"])
        rc, out = native_run(natives["plain"], r["_inst"], values)
        obs = {}
        for k, y in re.findall(r"^OBS (\S+) (\S+)$", out, re.M):
            obs.setdefault(k, []).append(y)
        bad = []
        for k, x in w["obs"]:
            if not obs.get(k):
                continue
            y = float(obs[k].pop(0))
            if x is None or isinstance(x, str):
                continue
            if abs(x - y) > 1e-2 * (1 + abs(x)):
                bad.append("%s: encoded %.6g, real %.6g" % (k, x, y))
        return r, w, rc, out, bad
    jobs = [(r, i, w) for r in reps for i, w in enumerate(r["witnesses"]) if r["_inst"].get("replay", True)]
    with cf.ThreadPoolExecutor(build.JOBS) as ex:
        for r, w, rc, out, bad in ex.map(lambda j: one(*j), jobs):
            if rc == 11:
                rounded += 1      # the model's values, rounded to floats, miss an assumption: nothing to compare
            elif rc == 0 and not bad:
                validated += 1
                if len(traces) < 3:
                    traces.append({"instance": r["_name"], "inputs": w["inputs"][:40], "observations": w["obs"][:20]})
            else:
                diverged.append("%s: status %s %s %s" % (r["_name"], rc, "; ".join(bad)[:200], " ".join(l for l in out.splitlines() if l.startswith("FAIL"))[:200]))
    wall = time.time() - T0
    tot = lambda k: sum(r.get(k, 0) for r in reps)
    funcs = sorted(set(f for r in reps for f in r.get("functions", [])))
    notes = sorted(set(x for r in reps for x in r.get("notes", [])))
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
        "coverage": {
            "states": tot("paths"), "transitions": tot("instructions"), "traces_validated_against_impl": validated,
            "samples": traces or [{"instance": r["_name"], "inputs": r["witnesses"][0]["inputs"][:40] if r["witnesses"] else []} for r in reps[:2]],
            "exhaustive": not undecided and not fatal and not unconfirmed,
            "meaning": "states: symbolic paths completed; transitions: LLVM instructions of the encoded code executed symbolically; traces: solver models of complete paths re-run on the native build with every assertion and observation agreeing",
            "functions_encoded": funcs, "bounds": spec["bounds"], "outside": spec.get("outside", ""),
            "obligations": tot("checks"), "obligations_closed_by_rewriting": tot("checks_trivial"),
            "queries": {"assertions": tot("check_queries"), "branches": tot("branch_queries"), "memory": tot("memory_queries"), "overflow": tot("overflow_queries"), "sat": tot("sat"), "unsat": tot("unsat"), "unknown": tot("unknown")},
            "solver_s": round(tot("solver_s"), 3), "build_s": round(tbuild, 1),
            "instances": [{"name": r["_name"], "mode": r.get("mode"), "paths": r.get("paths"), "checks": r.get("checks"), "forks": r.get("forks"), "solver_s": round(r.get("solver_s", 0), 2), "wall_s": round(r["_wall"], 2), "ends": r.get("ends"), "violations": len(r["violations"]), "errors": r["errors"][:3]} for r in reps],
            "undecided": undecided[:20], "unconfirmed": ["%s: %s" % (n, v["msg"]) for v, n, _, _ in unconfirmed], "diverged_traces": diverged[:10], "traces_missing_an_assumption_after_rounding": rounded,
            "known_findings": sorted(knownhit),
        },
        "assumptions": spec.get("assumptions", []) + notes[:20],
        "wall_s": round(wall, 2), "violations": len(violations),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    for k in knownhit.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    for v, name, values, how in unconfirmed:
        print("UNCONFIRMED property=%s %s: %s at %s (%s)" % (prop, name, v["msg"], v["loc"], values))
    for u in undecided[:20]:
        print("UNDECIDED property=%s %s" % (prop, u))
    for d in diverged[:5]:
        print("DIVERGED property=%s %s" % (prop, d))
    print("property=%s tier=%s instances=%d paths=%d obligations=%d (rewriting %d) queries=%d solver=%.1fs traces=%d/%d build=%.1fs wall=%.1fs" % (
        prop, tier, len(reps), tot("paths"), tot("checks"), tot("checks_trivial"), tot("sat") + tot("unsat") + tot("unknown"), tot("solver_s"), validated, len(jobs), tbuild, wall))
    if violations:
        for v, name, values, how in violations[:3]:
            print("  %s [%s] %s at %s -- %s" % (name, v["kind"], v["msg"], v["loc"], how))
        print("VIOLATION property=%s replay=%s" % (prop, violations[0][2]))
        return 1
    if fatal:
        for f in fatal:
            print("ERROR property=%s %s" % (prop, f))
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
