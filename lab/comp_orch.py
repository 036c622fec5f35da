"""C19, C20: the real orchestrator (request handlers and command line) against Orchestrator.tla."""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, tempfile
import build, comp, tlc

HERE = os.path.dirname(os.path.abspath(__file__))

def model(prop, tier, rng, builder, out, deadline):
    quick = [(2, 1, 2, 1), (2, 2, 2, 0), (3, 1, 2, 0)]
    for s, c, e, k in quick if tier == "quick" else quick + [(2, 2, 2, 2), (3, 2, 3, 0), (2, 1, 3, 1)]:
        r = tlc.run("MCOrch", tlc.cfg_text(dict(MServers=s, MClients=c, MExps=e, MKills=k), invariants=["Inv"], properties=["AllDone", "Stable"], deadlock=False), workers=6, timeout=3000)
        if not r.ok:
            raise tlc.ModelError(r.error())
        out.states += r.distinct
        out.transitions += r.generated
        out.notes.append("MCOrch %d servers, %d clients, %d experiments, %d operator interventions: %d states" % (s, c, e, k, r.distinct))

def histories(num, steps, seed, big=0):
    r = tlc.run("MCOrchSim", "CONSTANTS\n Steps = %d\n Big = %d\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n" % (steps, big), workers=1, timeout=300,
                args=["-simulate", "num=%d" % num, "-depth", str(steps + 4), "-seed", str(seed)])
    text = re.sub(r"\n\s+", " ", r.out)
    res = [json.loads(json.loads('"' + m.group(1) + '"')) for m in re.finditer(r'<<\s*"SCHED",\s*"(.*?[^\\])"\s*>>', text)]
    if not res:
        raise tlc.ModelError("no histories: " + r.error())
    return res

def replay(hists):
    src = os.path.join(build.REPO, "experiments", "orchestrator")
    d = tempfile.mkdtemp(prefix="dppir-orch-")
    try:
        hf = os.path.join(d, "h.json")
        json.dump(hists, open(hf, "w"))
        def one(i):
            w, o = os.path.join(d, "w%d" % i), os.path.join(d, "o%d.json" % i)
            shutil.copytree(src, w, ignore=shutil.ignore_patterns("node_modules", "outputs"))
            try:
                p = subprocess.run(["node", os.path.join(HERE, "orch_driver.js"), w, hf, str(i), o], cwd=d, capture_output=True, text=True, timeout=120)
            except subprocess.TimeoutExpired:
                return {"t": "orch", "crash": 1, "ops": [], "why": "timeout"}
            finally:
                shutil.rmtree(w, ignore_errors=True)
            if not os.path.exists(o):
                return {"t": "orch", "crash": 1, "ops": [], "why": (p.stderr + p.stdout)[-500:]}
            return json.load(open(o))
        with cf.ThreadPoolExecutor(8) as ex:
            return list(ex.map(one, range(len(hists))))
    finally:
        shutil.rmtree(d, ignore_errors=True)

def replays(prop, tier, rng, builder, out, deadline):
    num, steps = (150, 110) if tier == "quick" else (3000, 160)
    hists = histories(num, steps, rng.randrange(1, 10**6)) + histories(max(num // 6, 1), steps, rng.randrange(1, 10**6), 1) + histories(max(num // 20, 1), steps, rng.randrange(1, 10**6), 2)
    def make():
        return replay(hists)
    comp.check(prop, "Orchestrator", make, out, "histories of %d operations from MCOrchSim" % steps)
