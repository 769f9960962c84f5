#!/usr/bin/env python3
"""trybug.py [--notest] [--nocheck] [-j N] [--patch FILE --prop ID] ID...: confirms planted
bugs (demo passes without, fails with; stable tests pass with) and runs the
property's check against each. Everything happens on a copy of /repo that is
mounted over /repo in a private mount namespace, so the real tree is never
touched and several can run at once.
trybug.py --edit FILE.diff PROP...: runs checks on a behaviour-preserving edit
(they must exit 0)."""
import json, os, subprocess, sys, time, tempfile
from concurrent.futures import ThreadPoolExecutor
base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)

def enter(tmp):
    os.makedirs(tmp + "/repo"); os.makedirs(tmp + "/ev")
    subprocess.call("ip link set lo up", shell=True)
    subprocess.check_call("cp -a /repo/. %s/repo/ && mount --bind %s/repo /repo && mount --bind %s/ev /verif/evidence" % (tmp, tmp, tmp), shell=True)

def bug(i, flags):
    d = os.environ.get("SEEDED", "/verif/seeded") + "/" + i
    p = json.load(open(d + "/meta.json"))["property"]
    assert sh("git -C /repo status --porcelain").stdout == "", "repo dirty"
    out = [i, p]
    if "--nodemo" not in flags:
        a = sh("bash %s/demo.sh" % d, cwd="/repo")
        out.append("demo-clean=%d" % a.returncode)
        if a.returncode: print(a.stdout[-1500:], a.stderr[-1500:])
    r = sh("git -C /repo apply %s/patch.diff" % d)
    if r.returncode:
        print(i, "PATCH DOES NOT APPLY", r.stderr); return
    b = sh("bash /opt/vp/build.sh")
    out.append("build=%d" % b.returncode)
    if b.returncode: print(b.stdout[-800:], b.stderr[-800:])
    if "--nodemo" not in flags:
        a = sh("bash %s/demo.sh" % d, cwd="/repo")
        out.append("demo-bug=%d" % a.returncode)
        if a.returncode == 0 or "--- FAIL" not in a.stdout + a.stderr: print(a.stdout[-1500:], a.stderr[-800:])
    if "--notest" not in flags:
        sh("bash /opt/vp/test.sh /tmp/tr-%s.json" % i)
        t = json.load(open("/tmp/tr-%s.json" % i))
        os.remove("/tmp/tr-%s.json" % i)
        ok = set(t.get("passed") or t.get("pass") or [])
        out.append("tests-missing=%s" % sorted(base - ok)[:4])
    if "--nocheck" not in flags:
        check(p, out)
    print(*out, flush=True)

def check(p, out):
    t0 = time.time()
    c = sh("cd /verif && ./check.sh %s" % p)
    out.append("check %s=%d (%.0fs)" % (p, c.returncode, time.time() - t0))
    out.append([l for l in c.stdout.splitlines() if not l.startswith("VIOLATION")][:4])
    if c.returncode not in (0, 1): print(c.stdout[-500:], c.stderr[-1500:])

def edit(f, props):
    r = sh("git -C /repo apply %s" % os.path.abspath(f))
    if r.returncode:
        print(f, "PATCH DOES NOT APPLY", r.stderr); return
    out = [f]
    for p in props: check(p, out)
    print(*out, flush=True)

def outer(args):
    tmp = tempfile.mkdtemp(prefix="try-")
    try:
        r = subprocess.run(["unshare", "-Urmn", sys.executable, os.path.abspath(__file__), "--inner", tmp] + args, capture_output=True, text=True)
        sys.stdout.write(r.stdout + r.stderr[-2000:]); sys.stdout.flush()
    finally:
        subprocess.call(["rm", "-rf", tmp])

if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "--inner":
        enter(a[1])
        if a[2] == "--edit": edit(a[3], a[4:])
        else: bug(a[2], a[3:])
    elif a[0] == "--edit":
        outer(a)
    else:
        j = 1
        if "-j" in a:
            k = a.index("-j"); j = int(a[k + 1]); del a[k:k + 2]
        flags = [x for x in a if x.startswith("--")]
        with ThreadPoolExecutor(j) as ex:
            list(ex.map(lambda i: outer([i] + flags), [x for x in a if not x.startswith("--")]))
