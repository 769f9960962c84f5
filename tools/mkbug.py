#!/usr/bin/env python3
"""mkbug.py SPECFILE: makes seeded/<id> directories from a Python file that
defines BUGS = [dict(id, property, edits=[(file, old, new)], demo, needs, breaks, race)]."""
import json, os, shutil, subprocess, sys, tempfile
S = "/verif/seeded"
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
for b in ns["BUGS"]:
    if only and b["id"] not in only: continue
    d = "%s/%s" % (S, b["id"])
    t = tempfile.mkdtemp(prefix="bug-")
    try:
        subprocess.check_call("git -C /repo archive HEAD | tar -x -C %s && cd %s && git init -q && git add -A && git -c user.email=a@b -c user.name=x commit -qm b" % (t, t), shell=True)
        for f, old, new in b["edits"]:
            s = open(t + "/" + f).read()
            assert s.count(old) == 1, (b["id"], f, s.count(old), old)
            open(t + "/" + f, "w").write(s.replace(old, new))
        subprocess.check_call(["gofmt", "-l", t + "/" + b["edits"][0][0]])
        diff = subprocess.check_output(["git", "diff"], cwd=t)
    finally:
        subprocess.call(["rm", "-rf", t])
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "wb").write(diff)
    shutil.copy("/verif/tools/kit/demo.sh", d); shutil.copy("/verif/tools/kit/kit_test.go", d)
    open(d + "/demo_test.go", "w").write(b["demo"].lstrip())
    subprocess.call(["gofmt", "-w", d + "/demo_test.go"])
    if b.get("race"):
        open(d + "/race", "w").write("")
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    print("made", b["id"])
