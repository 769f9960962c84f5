"""Native replay: repeats a run of a harness on the real code, compiled by the
Go toolchain, with the values the solver chose, under virtual time."""
import concurrent.futures, json, os, re, shutil, subprocess, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GO = "/opt/veriftools/go1.26.10/bin/go"
MOD = "github.com/kitex-contrib/xds"
VR = MOD + "/zzverif/vrand"

class Native:
    def __init__(self, repo="/repo", race=False):
        self.dir = tempfile.mkdtemp(prefix="verif-native-")
        self.err = ""
        self.bin = None
        try:
            self.prepare(repo)
            self.build(race)
        except Exception as e:
            self.err = "%s: %s" % (type(e).__name__, e)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def prepare(self, repo):
        d = self.dir + "/src"
        shutil.copytree(repo, d, ignore=shutil.ignore_patterns(".git", "*_test.go"), symlinks=True)
        own = []
        for root, dirs, files in os.walk(d):
            for f in files:
                if f.endswith(".go") and "kitex_gen" not in root:
                    rewrite(os.path.join(root, f))
                    own.append(os.path.join(root, f))
        subprocess.run([GO, "build", "-o", self.dir + "/instr", "."], cwd=V + "/replay/instr", env=goenv(), check=True, timeout=200)
        subprocess.run([self.dir + "/instr"] + own, check=True, timeout=60)
        z = d + "/zzverif"
        shutil.copytree(V + "/harness/h", z + "/h")
        shutil.copytree(V + "/harness/vsym", z + "/vsym")
        shutil.copytree(V + "/harness/vrand", z + "/vrand")
        for s in ("run",):
            shutil.copytree(V + "/replay/" + s, z + "/" + s, dirs_exist_ok=True)
        for f in os.listdir(z + "/h"):
            rewrite(z + "/h/" + f)
        names = []
        for f in os.listdir(z + "/h"):
            p = z + "/h/" + f
            s = open(p).read()
            names += re.findall(r"^func (C\d\d_\w+)\(\) \{", s, re.M)
            s2 = s.replace("/tmp/verif_dump.json", self.dir + "/dump.json")
            if s2 != s:
                open(p, "w").write(s2)
        with open(z + "/run/table_test.go", "w") as f:
            f.write('package run\n\nimport "%s/zzverif/h"\n\nvar harnesses = map[string]func(){\n' % MOD)
            for n in names:
                f.write('"%s": h.%s,\n' % (n, n))
            f.write("}\n")
        a = d + "/core/api/kitex_gen/envoy/service/discovery/v3/aggregateddiscoveryservice"
        for f in os.listdir(a):
            s = open(a + "/" + f).read()
            s2 = re.sub(r"^func NewClient\(", "func origNewClient(", s, flags=re.M)
            if s2 != s:
                open(a + "/" + f, "w").write(s2)
        open(a + "/zz_verif_hook.go", "w").write('''package aggregateddiscoveryservice

import client "github.com/cloudwego/kitex/client"

var VerifNewClient func() (Client, error)

func NewClient(destService string, opts ...client.Option) (Client, error) { return VerifNewClient() }

var _ = origNewClient
''')
        m = open(d + "/go.mod").read()
        open(d + "/go.mod", "w").write(m + "\nreplace github.com/bytedance/sonic/loader => %s/replay/loader\n" % V)

    def build(self, race):
        env = goenv()
        p = subprocess.run([GO, "test", "-c", "-vet=off", "-ldflags=-checklinkname=0"] + (["-race"] if race else []) + ["-o", self.dir + "/replay.test", "./zzverif/run"],
                           cwd=self.dir + "/src", env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=400)
        if p.returncode != 0:
            self.err = p.stdout[-1500:]
            return
        self.bin = self.dir + "/replay.test"

    def run(self, harness, inputs, n=0, timeout=60, devs=None, seed=0):
        case, out = "%s/case-%d.json" % (self.dir, n), "%s/out-%d.json" % (self.dir, n)
        json.dump({"harness": harness, "inputs": inputs, "parks": parks(devs), "seed": seed}, open(case, "w"))
        if os.path.exists(out):
            os.remove(out)
        env = {k: v for k, v in os.environ.items() if not k.startswith(("POD_", "KITEX_", "ISTIO_", "INSTANCE_", "VERIF_"))}
        env.update(GODEBUG="asynctimerchan=0", VERIF_REPLAY_CASE=case, VERIF_REPLAY_OUT=out, GORACE="halt_on_error=1")
        try:
            p = subprocess.run([self.bin, "-test.run", "TestReplay"], cwd=self.dir, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace")
        except subprocess.TimeoutExpired:
            return {"status": "hang", "label": "no end within %d s" % timeout, "obs": []}
        if "WARNING: DATA RACE" in p.stdout:
            return {"status": "race", "label": p.stdout[-2500:], "obs": []}
        if os.path.exists(out):
            return json.load(open(out))
        if "deadlock" in p.stdout:
            return {"status": "hang", "label": p.stdout[-1500:], "obs": []}
        if "panic:" in p.stdout or "fatal error:" in p.stdout:
            i = max(p.stdout.find("panic:"), p.stdout.find("fatal error:"))
            return {"status": "panic", "label": p.stdout[i:i + 1500], "obs": []}
        return {"status": "unavailable", "label": p.stdout[-1000:], "obs": []}

def parks(devs):
    """where the recorded schedule held goroutines back, and for how long"""
    r = {}
    for d in devs or []:
        m = re.match(r"(.*:)(\d+)$", d["at"])
        if not m:
            continue
        for k in (-1, 0, 1):
            l = r.setdefault(m.group(1) + str(int(m.group(2)) + k), [])
            l.append(max(1, d.get("for", 0)))
            if d.get("for"):
                l.append(d["for"] + 1)
    return r or None

def goenv():
    env = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOSUMDB="off", GOTOOLCHAIN="local", GOENV="off", GOWORK="off", HOME=os.environ.get("HOME", "/root"))
    env.pop("GOROOT", None)
    return env

def rewrite(path):
    s = open(path).read()
    o = s
    s = re.sub(r'"(github\.com/bytedance/gopkg/lang/fastrand)"', 'fastrand "%s"' % VR, s)
    s = re.sub(r'"math/rand(/v2)?"', 'rand "%s"' % VR, s)
    s = re.sub(r'\b(\w+) (fastrand|rand) "%s"' % re.escape(VR), r'\1 "%s"' % VR, s)
    if re.search(r"\btime\.(Now|Since|Until)\b", s):
        s = re.sub(r"\btime\.(Now|Since|Until)\b", r"zzvrand.\1", s)
        s += "\nvar _ = time.Now\n"
    if re.search(r"\bsync\.(Mutex|RWMutex|Once)\b", s):
        s = re.sub(r"\bsync\.(Mutex|RWMutex|Once)\b", r"zzvrand.\1", s)
        if re.search(r'^(import )?\s*"sync"', s, re.M):
            s += "\nvar _ sync.Mutex\n"
    if "zzvrand." in s:
        s = re.sub(r"^(package \w+)", '\\1; import zzvrand "%s"' % VR, s, count=1, flags=re.M)
    if s != o:
        open(path, "w").write(s)

KIND = {"panic": "panic", "hang": "hang", "race": "race"}

def confirm(v, harness, natives, tries=240):
    """repeats a violation natively; returns (outcome, detail)"""
    race = v["label"] == "race"
    if race not in natives:
        natives[race] = Native(race=race)
    nat = natives[race]
    if not nat.bin:
        return "unavailable", nat.err[-600:]
    want = KIND.get(v["label"], "violation")
    last = {}
    def attempt(seed):
        devs = v.get("devs") if seed else None
        return nat.run(harness, v["inputs"], seed, timeout=20, devs=devs, seed=seed)
    def hit(o):
        return o["status"] == want and (want != "violation" or o["label"] == v["label"])
    # the schedule the Go runtime takes by itself, then with goroutines held
    # back where the recorded schedule held them; other choices of the runtime
    # (map order, select) vary by themselves
    stat = {}
    with concurrent.futures.ThreadPoolExecutor(6) as ex:
        for lo in range(0, tries, 24):
            for seed, o in zip(range(lo, lo + 24), ex.map(attempt, range(lo, lo + 24))):
                stat[o["status"]] = stat.get(o["status"], 0) + 1
                if hit(o):
                    return "reproduced", {"run": seed, "status": o["status"], "label": o["label"], "obs": o.get("obs")}
                last = o
            if not v.get("devs") and lo >= 24:
                break
    return "not reproduced", {"outcomes": stat, "last": last.get("label", "")[:600]}
