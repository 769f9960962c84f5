#!/usr/bin/env python3
"""crossval.py OUT.json [N] [FILTER]: repeats sampled runs of an engine output
natively and compares outcome and observations."""
import concurrent.futures, json, sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "driver"))
import replay
rs = json.load(open(sys.argv[1]))
N = int(sys.argv[2]) if len(sys.argv) > 2 else 5
flt = sys.argv[3] if len(sys.argv) > 3 else ""
nat = replay.Native()
if not nat.bin:
    print("no native binary:", nat.err); sys.exit(2)
jobs = []
for r in rs:
    if flt in r["harness"]:
        for s in (r.get("samples") or [])[:N]:
            jobs.append((r["harness"], s))
def one(a):
    i, (h, s) = a
    return h, s, nat.run(h, s["inputs"], i)
tot = {}
with concurrent.futures.ThreadPoolExecutor(6) as ex:
    for h, s, o in ex.map(one, enumerate(jobs)):
        t = tot.setdefault(h, {"same": 0, "bad": []})
        want, got = s["notes"] or [], o.get("obs") or []
        if o["status"] == s.get("status", "ok") and want == got:
            t["same"] += 1
        else:
            t["bad"].append((s.get("status"), o["status"], o["label"][:700], want[:6], got[:6], [i for i in s["inputs"] if i["k"] == "choose"][:12]))
for h, t in tot.items():
    print(h, "same", t["same"], "differ", len(t["bad"]))
    for b in t["bad"][:1]:
        print("    ", b)
nat.close()
