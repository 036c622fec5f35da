"""Runs protocol scenarios on the real program and judges the recorded traces with TLC."""
import json, multiprocessing as mp, os, random, time, traceback
import build, lab, suites, tlc, validate

WORKERS = 10
_progs = {}

def _init(counter, n):
    with counter.get_lock():
        i = counter.value
        counter.value += 1
    lab.set_port_block(i % n, n)

def _one(args):
    d, prog, deadline = args
    if time.time() > deadline:
        return d["name"], None, None
    try:
        return d["name"], lab.run_scenario(lab.Scenario(**d), prog), None
    except lab.InfraError as e:
        return d["name"], None, "infra: %s" % e
    except Exception:
        return d["name"], None, traceback.format_exc()

def run_all(scs, builder, deadline, workers=WORKERS, max_hangs=6):
    for i, s in enumerate(scs):
        s.name = "%d:%s" % (i, s.name)
    progs = {v: builder.program(v) for v in {s.variant for s in scs}}
    ctx = mp.get_context("fork")
    counter = ctx.Value("i", 0)
    traces, errors, hangs = [], [], 0
    with ctx.Pool(workers, _init, (counter, workers)) as pool:
        for name, tr, err in pool.imap_unordered(_one, [(s.dict(), progs[s.variant], deadline) for s in scs]):
            if tr is not None:
                traces.append(tr)
                if tr["aux"]["hang"]:
                    hangs += 1
                    if hangs >= max_hangs:
                        pool.terminate()
                        break
            elif err:
                errors.append((name, err))
    return traces, errors

class Outcome:
    def __init__(self):
        self.viol = []            # (explanation, replay dict)
        self.states = self.transitions = self.traces = 0
        self.samples, self.notes = [], []
        self.messages = 0

def describe(tr):
    return {"scenario": tr["name"], "events": len(tr["ev"]), "messages": len(tr["msgs"]), "released": tr["aux"]["released"],
            "exits": tr["aux"]["rc"], "wall_s": tr["aux"]["wall"]}

def check(prop, scs, builder, deadline, out, confirm=6):
    """Runs the scenarios; a rejection counts if a re-run of its scenario is rejected again."""
    t0 = time.time()
    traces, errors = run_all(scs, builder, deadline)
    if errors and len(errors) > max(3, len(scs) // 20):
        raise RuntimeError("could not run scenarios: %s" % errors[:2])
    verdicts, states = validate.validate(traces)
    out.states += states
    out.transitions += sum(len(t["ev"]) for t in traces)
    out.traces += len(traces)
    out.messages += sum(len(t["msgs"]) for t in traces)
    out.samples += [describe(t) for t in traces[:2]]
    out.notes.append("%d scenarios run, %d not run (time), %d errors, %.1fs" % (len(traces), len(scs) - len(traces) - len(errors), len(errors), time.time() - t0))
    rejected = [t for t in traces if any(v[0] == prop for v in verdicts[t["name"]].viol)]
    rejected.sort(key=lambda t: (bool(t["aux"]["hang"]), len(t["ev"])))
    for t in rejected[:4]:
        again = []
        for _ in range(confirm):
            tr2 = lab.run_scenario(lab.Scenario(**t["aux"]["scenario"]), builder.program(t["aux"]["scenario"]["variant"]))
            v2, _ = validate.validate([tr2])
            again = [v for v in v2[tr2["name"]].viol if v[0] == prop]
            if again:
                break
        if again:
            first = [v for v in verdicts[t["name"]].viol if v[0] == prop][0]
            out.viol.append(("%s (event %d of scenario %s; re-run: %s)" % (first[2], first[1], t["name"], again[0][2]),
                             {"kind": "protocol", "scenario": t["aux"]["scenario"], "event": first[1], "what": first[2],
                              "exits": t["aux"]["rc"], "output": t["aux"]["out"], "trace": {k: t[k] for k in ("ev", "msgs")} if len(t["ev"]) < 3000 else None}))
            return out
        out.notes.append("rejection of %s not repeated, ignored" % t["name"])
    return out

# ---- model checking of the design ------------------------------------------------
INVS = ["Answers", "Bounds", "BatchBarrier", "NoiseComplete", "EndClean", "BadStops"]
def mc(out, P, S, db, noise, stage, q, faults=0, timeout=800):
    cfg = tlc.cfg_text(dict(MP=P, MS=S, MDb=db, MNoise=noise, MStage=json.dumps(stage), MQ=tlc.Sub(q), MFaults=faults),
                       invariants=INVS, properties=["Terminates"] if faults == 0 else [], deadlock=faults == 0)
    r = tlc.run("MCrun", cfg, workers=8, timeout=timeout, heap="8g")
    if not r.ok:
        raise tlc.ModelError("design model MCDPPIR P=%d S=%d: %s" % (P, S, r.error()))
    out.states += r.distinct
    out.transitions += r.generated
    out.notes.append("MCDPPIR P=%d S=%d db=%d noise=%d stage=%s q=%s faults=%d: %d distinct states" % (P, S, db, noise, stage, q, faults, r.distinct))

def schedules(P, S, db, noise, stage, q, num, seed, timeout=300):
    """Delivery orders of `num' random behaviours of the design model."""
    import re
    cfg = tlc.cfg_text(dict(MP=P, MS=S, MDb=db, MNoise=noise, MStage=json.dumps(stage), MQ=tlc.Sub(q), MFaults=0), spec="SimSpec", deadlock=False)
    r = tlc.run("MCSim", cfg, workers=1, timeout=timeout, args=["-simulate", "num=%d" % num, "-depth", "400", "-seed", str(seed)])
    text = re.sub(r"\n\s+", " ", r.out)
    res = []
    for m in re.finditer(r'<<\s*"SCHED",\s*"(.*?)"\s*>>', text):
        h = json.loads(m.group(1).replace('\\"', '"'))
        if h not in res:
            res.append(h)
    if not res:
        raise tlc.ModelError("no schedules: " + r.error())
    return res

QS = {"Q2": [2], "Q11": [1, 1], "Q02": [0, 2], "Q12": [1, 2], "Q1": [1], "Q111": [1, 1, 1], "Q3": [3]}
def scripted(rng, n, out=None):
    """Scenarios that replay model behaviours."""
    shapes = [(2, 2, 2, 1, "all", "Q11"), (2, 2, 2, 0, "all", "Q12"), (3, 1, 1, 1, "all", "Q2"), (2, 2, 2, 1, "online", "Q12"), (2, 1, 2, 1, "all", "Q2"), (3, 2, 2, 0, "all", "Q02")]
    per = max(1, -(-n // len(shapes)))
    from concurrent.futures import ThreadPoolExecutor
    seeds = [rng.randrange(1, 10**6) for _ in shapes]
    with ThreadPoolExecutor(6) as ex:
        hs = list(ex.map(lambda a: schedules(*a[0], per, a[1]), zip(shapes, seeds)))
    res = []
    for shape, h in zip(shapes, hs):
        P, S, db, nz, stage, q = shape
        for x in h[:per]:
            res.append(suites.sc("script", P, S, db, nz, QS[q], stage, seed=rng.randrange(1, 10**6), script=x))
    return res[:n]
suites.scripted = scripted
