"""C26: the runners of the baselines (SealPIR, Checklist) against stand-ins for the libraries they measure."""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, subprocess, tempfile
import build, comp, tlc
from comp_plot import go_time

HERE = os.path.dirname(os.path.abspath(__file__))

def model(prop, tier, rng, builder, out, deadline):
    shapes = [("seal", 2, 4, 3, 1, "FALSE", "{0}"), ("list", 3, 1, 1, 1, "TRUE", "{0, 1}"), ("list", 4, 1, 1, 2, "FALSE", "{0, 1}"), ("list", 0, 1, 1, 1, "FALSE", "{0}")]
    if tier != "quick":
        shapes += [("seal", 3, 3, 2, 1, "FALSE", "{0}"), ("list", 5, 1, 1, 2, "TRUE", "{0, 1}"), ("list", 6, 1, 1, 3, "TRUE", "{0, 1}")]
    for runner, q, table, pack, cap, stops, fails in shapes:
        cfg = ('CONSTANTS\n Runner = "%s"\n Q = %d\n Table = %d\n Pack = %d\n Cap = %d\n Stops = %s\n Fails = %s\nSPECIFICATION Spec\n'
               'INVARIANTS Reported Bounded\nPROPERTY Terminates\n' % (runner, q, table, pack, cap, stops, fails))
        r = tlc.run("MCBaseline", cfg, workers=8, timeout=600, heap="6g")
        if not r.ok:
            raise tlc.ModelError("MCBaseline: " + r.error())
        out.states += r.distinct
        out.transitions += r.generated
        out.notes.append("MCBaseline %s runner, %d requests: %d states" % (runner, q, r.distinct))

def scenarios(num, seed):
    r = tlc.run("MCBaselineSim", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n", workers=1, timeout=300, args=["-simulate", "num=%d" % num, "-depth", "5", "-seed", str(seed)])
    text = re.sub(r"\n\s+", " ", r.out)
    res = [json.loads(json.loads('"' + m.group(1) + '"')) for m in re.finditer(r'<<\s*"SCHED",\s*"(.*?[^\\])"\s*>>', text)]
    if not res:
        raise tlc.ModelError("no scenarios: " + r.error())
    return res

# ---- building ----
def digest(d):
    h = hashlib.sha256()
    for base in (d, os.path.join(HERE, "slstub"), os.path.join(HERE, "clstub")):
        for top, ds, files in os.walk(base):
            ds.sort()
            for f in sorted(files):
                if f.endswith((".cc", ".hpp", ".h", ".go", ".in")):
                    h.update(f.encode() + open(os.path.join(top, f), "rb").read())
    return h.hexdigest()[:16]

def sealpir(builder):
    """The SealPIR runner linked with the stand-in."""
    d = os.path.join(build.REPO, "experiments/sealpir")
    exe = os.path.join(builder.dir, "sealpir-" + digest(d))
    if not os.path.exists(exe):
        srcs = sorted(os.path.join(t, f) for t, _, fs in os.walk(d) for f in fs if f.endswith((".cc", ".cpp")) and not re.search(r"_test\.", f))
        libs = subprocess.run(["pkg-config", "--libs", "absl_flags_parse", "absl_flags", "absl_flags_usage", "absl_str_format"], capture_output=True, text=True, check=True).stdout.split()
        tmp = exe + ".%d.tmp" % os.getpid()
        build.run(["g++", "-std=c++17", "-w", "-g1", "-O1", "-fsanitize=address", "-I", os.path.join(HERE, "slstub"), "-I", build.REPO, "-I", d, "-o", tmp]
                  + srcs + [os.path.join(HERE, "slstub", "stub.cc")] + libs, "compiling the SealPIR runner")
        os.rename(tmp, exe)
    return exe

def checklist(builder):
    """The Checklist runner built with the stand-in."""
    d = os.path.join(build.REPO, "experiments/checklist")
    exe = os.path.join(builder.dir, "checklist-" + digest(d))
    if not os.path.exists(exe):
        w = tempfile.mkdtemp(prefix="dppir-cl-")
        try:
            m = os.path.join(w, "m")
            shutil.copytree(os.path.join(HERE, "clstub"), m)
            os.rename(os.path.join(m, "go.mod.in"), os.path.join(m, "go.mod"))
            os.mkdir(os.path.join(m, "runner"))
            for f in os.listdir(d):
                if f.endswith(".go") and not f.endswith("_test.go"):
                    shutil.copy(os.path.join(d, f), os.path.join(m, "runner"))
            tmp = exe + ".%d.tmp" % os.getpid()
            env = dict(os.environ, GOCACHE=os.path.join(w, "cache"), GOPATH=os.path.join(w, "path"), GOFLAGS="-mod=mod", GOTOOLCHAIN="local", GOPROXY="off", GO111MODULE="on", CGO_ENABLED="0", HOME=w)
            p = subprocess.run(["go", "build", "-o", tmp, "./runner"], cwd=m, env=env, capture_output=True, text=True)
            if p.returncode != 0:
                raise build.BuildError("building the Checklist runner failed: " + p.stderr[-3000:])
            os.rename(tmp, exe)
        finally:
            subprocess.run(["chmod", "-R", "u+w", w])
            shutil.rmtree(w, ignore_errors=True)
    return exe

# ---- running ----
def execute(argv, env, w, timeout=120):
    """Returns (exit status, output); a runner that does not end is stopped."""
    try:
        p = subprocess.run(argv, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0", **env), cwd=w, capture_output=True, text=True, timeout=timeout, errors="replace")
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 999, ""

def events(w):
    try:
        return [json.loads(l) for l in open(os.path.join(w, "log"))]
    except FileNotFoundError:
        return []

def seal_run(exe, s):
    w = tempfile.mkdtemp(prefix="dppir-seal-")
    try:
        with open(os.path.join(w, "dur"), "w") as f:
            for k, v in s["dur"].items():
                for ms, us in v:
                    f.write("%s %d %d\n" % (k, ms, us))
        argv = [exe]
        if s["table"] or not s["omit"]:
            argv.append("--table=%d" % s["table"])
        if s["q"] or not s["omit"]:
            argv.append("--queries=%d" % s["q"])
        rc, text = execute(argv, {"LAB_LOG": os.path.join(w, "log"), "LAB_DUR": os.path.join(w, "dur"), "LAB_PACK": str(s["pack"])}, w)
        num = lambda what: [min(int(x), 2000000000) for x in re.findall(r"(?m)^%s: (\d+)ms$" % what, text)]
        ev = [dict(e, d=e.get("d", 0), k=e.get("k", 0)) for e in events(w)]
        return {"t": "seal", "table": s["table"], "q": s["q"], "rc": rc, "ev": ev, "prep": num("Preprocessing"), "query": num("Query time"),
                "server": num("Server time"), "response": num("Response handling"), "scenario": {k: s[k] for k in ("pack", "dur", "omit")}}
    finally:
        shutil.rmtree(w, ignore_errors=True)

UNIT = {"h": 3600e6, "m": 60e6, "s": 1e6, "ms": 1e3, "us": 1, "µs": 1, "ns": 1e-3}
DURATION = r"(?:[0-9.]+(?:ms|us|µs|ns|h|m|s))+"

def micros(t):
    return min(2000000000, int(sum(float(n) * UNIT[u] for n, u in re.findall(r"([0-9.]+)(ms|us|µs|ns|h|m|s)", t))))

def list_run(exe, s):
    w = tempfile.mkdtemp(prefix="dppir-list-")
    try:
        fails = sorted(set(s["fail"]))
        want = 10000 if s["q"] < 0 else s["q"]
        sleep = s["sleep"]
        if want <= 300:   # spelled out, with slow failures
            sleep = [30000 if s["failslow"] and n in fails else sleep[(n - 1) % len(sleep)] for n in range(1, want + 1)]
        plan = {"Connect": s["con"], "Time": [t * 1000000 for t in s["time"]], "Bytes": s["bytes"], "Init": s["init"], "Keys": s["keys"], "Sleep": sleep, "Fail": fails, "Stop": s["stop"]}
        with open(os.path.join(w, "plan"), "w") as f:
            json.dump(plan, f)
        addr = ["10.0.0.1:3000", "10.0.0.2:3001"]
        argv = [exe, "-rowLen=8", "-tls=0", "-serverAddr=" + addr[0], "-serverAddr2=" + addr[1], "-pirType=" + s["typ"]]
        if s["wlat"]:
            argv.insert(1, "-latenciesFile=" + os.path.join(w, "lat"))
        if s["wlat"] == 2:   # that of an earlier run
            with open(os.path.join(w, "lat"), "w") as f:
                f.write("Seconds,Latency\n" + "1700000000,77\n" * 300)
        if s["q"] >= 0:
            argv.append("q%d" % s["q"])
        rc, text = execute(argv, {"LAB_LOG": os.path.join(w, "log"), "LAB_PLAN": os.path.join(w, "plan")}, w)
        ev = events(w)
        of = lambda k: [e for e in ev if e["e"] == k]
        done = {e["a"]: e for e in of("done")}
        last = max([e["t"] for e in ev], default=0)
        reads = [{"k": e["b"], "t0": e["t"], "t1": done[e["a"]]["t"] if e["a"] in done else last, "f": done[e["a"]]["b"] if e["a"] in done else 1, "u": e["u"]} for e in of("read")]
        keys, ends = of("keys"), of("timer") + of("bytes")
        lat = []
        if os.path.exists(os.path.join(w, "lat")) and not (s["wlat"] == 2 and (1 in s["con"] or s["init"])):
            lines = open(os.path.join(w, "lat")).read().splitlines()
            lat = [[min(int(l.split(",")[0]), 2000000000), min(int(l.split(",")[1]), 2000000)] if re.match(r"^\d+,\d+$", l) else [-1, -1] for l in (lines[1:] if lines[:1] == ["Seconds,Latency"] else lines)]
        big = lambda x: min(x, 2000000000)
        return {"t": "list", "q": s["q"], "con": s["con"], "init": s["init"], "stop": s["stop"], "typ": {"Punc": 2, "DPF": 3}[s["typ"]], "addr": addr,
                "keys": s["keys"], "rc": rc, "conn": [[e["a"], e["b"], e["s"]] for e in of("connect")], "inits": len(of("init")),
                "cl": [[e["a"], e["b"], e["c"]] for e in of("client")], "reads": [dict(r, k=big(r["k"])) for r in reads],
                "tk": keys[-1]["t"] if keys else 0, "te": min([e["t"] for e in ends], default=last), "asks": [e["t"] for e in ends],
                "tot": [micros(x) for x in re.findall(r"(?m)^(%s)$" % DURATION, text)],
                "srv": [[int(n), t, big(int(b))] for n, t, b in re.findall(r"(?m)^Server (\d): time: (\S+) and bytes: (\d+)$".replace(": time", " time"), text)],
                "st": [go_time(t) if t else "0s" for t in s["time"]], "by": s["bytes"], "wlat": s["wlat"], "lat": lat, "u0": keys[-1]["u"] if keys else 0,
                "scenario": {k: s[k] for k in ("sleep", "fail", "failslow")}}
    finally:
        shutil.rmtree(w, ignore_errors=True)

def replays(prop, tier, rng, builder, out, deadline):
    n = 260 if tier == "quick" else 3000
    exes = {}
    for t, what, f in (("seal", "SealPIR", sealpir), ("list", "Checklist", checklist)):
        try:
            exes[t] = f(builder)
        except build.BuildError as e:
            out.notes.append("the %s runner does not fit the stand-in's interface, skipped: %s" % (what, str(e)[-300:]))
    def make():
        scs = [s for s in scenarios(n, rng.randrange(1, 10**6)) if s["t"] in exes]
        with cf.ThreadPoolExecutor(8) as ex:
            return list(ex.map(lambda s: (seal_run if s["t"] == "seal" else list_run)(exes[s["t"]], s), scs))
    if exes:
        comp.check(prop, "Baseline", make, out, "runners of the baselines with scenarios from MCBaselineSim")
