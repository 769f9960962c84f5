#!/usr/bin/env python3
"""check.py ID: decides one property on /repo's current tree."""
import json, os, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "driver"))
import specs, replay

def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if tier not in ("quick", "thorough"):
        tier = "quick"
    runs = (specs.THOROUGH.get(pid) if tier == "thorough" else None) or specs.QUICK[pid]
    if subprocess.call(["bash", V + "/build.sh"], stdout=sys.stderr) != 0:
        print("ERROR: the engine does not build"); return 2
    tmp = tempfile.mkdtemp(prefix="verif-")
    try:
        return decide(pid, tier, seed, runs, tmp, t0)
    finally:
        subprocess.call(["rm", "-rf", tmp])

def known(pid):
    out = []
    p = V + "/known-findings.txt"
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: "):
                d = json.loads(l[len("finding: "):])
                if d["property"] == pid:
                    out.append(d)
    return out

def decide(pid, tier, seed, runs, tmp, t0):
    spec = [{"fn": f, "time": t, "param": p} for f, t, p in runs]
    json.dump(spec, open(tmp + "/spec.json", "w"))
    rc = subprocess.call([V + "/run.sh", "-spec", tmp + "/spec.json", "-out", tmp + "/out.json", "-seed", str(seed)], stdout=sys.stderr)
    if rc != 0 or not os.path.exists(tmp + "/out.json"):
        print("ERROR: the current tree could not be encoded (see stderr)"); return 2
    rs = json.load(open(tmp + "/out.json"))
    bad, problems, seen = [], [], {}
    kf = known(pid)
    for r in rs:
        for v in r.get("violations") or []:
            k = next((k for k in kf if k["harness"] == r["harness"] and k["label"] == v["label"]), None)
            if k:
                seen[k["what"]] = 1
            else:
                bad.append((r, v))
        if not r.get("violations") and not r["covers"].get("end"):
            problems.append("%s: no run reached the end" % r["harness"])
        if r.get("solver_errors"):
            problems.append("%s: solver errors %s" % (r["harness"], r["solver_errors"][:2]))
    for w in sorted(seen):
        print("KNOWN-FINDING: property=%s %s" % (pid, w))
    os.makedirs(V + "/evidence/replay", exist_ok=True)
    for f in os.listdir(V + "/evidence/replay"):
        if f.startswith(pid + "-"):
            os.remove(V + "/evidence/replay/" + f)
    natives, replays = {}, []
    for i, (r, v) in enumerate(bad[:5]):
        how, detail = ("skipped", "") if i >= 2 else replay.confirm(v, r["harness"], natives)
        replays.append({"harness": r["harness"], "label": v["label"], "native": how})
        path = "%s/evidence/replay/%s-%d.json" % (V, pid, i)
        json.dump({"property": pid, "harness": r["harness"], "param": r.get("param"), "violation": v, "native_replay": {"outcome": how, "detail": detail}}, open(path, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("   %s: %s (%s)" % (r["harness"], v["label"], v.get("msg", "")))
        print("   at %s" % v.get("where"))
        if i < 2:
            print("   native replay: %s" % how)
    for n in natives.values():
        n.close()
    evidence(pid, tier, seed, rs, bad, t0, replays)
    if bad:
        return 1
    for p in problems:
        print("ERROR:", p)
    if problems:
        return 2
    print("OK %s: %d paths, %d assertions decided, %d solver queries, %.0f s" % (
        pid, sum(r["paths"] for r in rs), sum(r["assertions_reached"] for r in rs), sum(r["solver_queries"] for r in rs), time.time() - t0))
    return 0

def evidence(pid, tier, seed, rs, bad, t0, replays):
    fs = sorted({f for r in rs for f in r.get("functions") or []})
    samples = []
    for r in rs:
        for s in (r.get("samples") or [])[:2]:
            samples.append({"harness": r["harness"], "inputs": s["inputs"], "observed": s["notes"], "schedule_steps": len(s.get("sched") or [])})
    cov = {
        "evaluations": sum(r["paths"] for r in rs),
        "distinct_nontrivial": sum(r["ok_paths"] for r in rs),
        "rule": "one evaluation is one feasible path of a harness through the real code, each with its own path condition (so no two cover the same inputs); non-trivial: it ran to the end of the harness and every assertion on it was decided for all inputs satisfying the path condition",
        "samples": samples[:8] or [{"note": "violation found first"}],
        "exhaustive": all(not r.get("time_budget_reached") and not r.get("unsupported_paths") and not r.get("bounded_paths") for r in rs),
        "assertions_decided": sum(r["assertions_reached"] for r in rs),
        "solver_queries": sum(r["solver_queries"] for r in rs),
        "solver_sat": sum(r["sat"] for r in rs),
        "solver_unsat": sum(r["unsat"] for r in rs),
        "solver_seconds": round(sum(r["solver_seconds"] for r in rs), 2),
        "native_replays": replays,
        "functions_encoded": fs,
        "harnesses": [{k: r.get(k) for k in ("harness", "param", "paths", "ok_paths", "assume_pruned", "unsupported", "unsupported_paths", "bounded", "bounded_paths", "unknown", "assertions_reached", "assertion_queries", "solver_queries", "solver_seconds", "wall_seconds", "time_budget_reached", "pending_paths_left", "ssa_steps", "covers")} for r in rs],
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "wall_s": round(time.time() - t0, 1), "violations": len(bad),
          "assumptions": ["bounds: the harness parameters listed under coverage.harnesses; see DESIGN.md for what lies outside", "protobuf wire decoding, klog, JSON and regexp engines are stand-ins (DESIGN.md)"]}
    json.dump(ev, open("%s/evidence/%s.json" % (V, pid), "w"), indent=1)

sys.exit(main())
