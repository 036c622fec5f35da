"""C25: the times that the parties report, with a clock that only the controller moves."""
import random, time
import comp, proto, suites, tlc

def model(prop, tier, rng, builder, out, deadline):
    shapes = [(2, 1, "all", 4), (3, 1, "all", 4), (2, 2, "all", 4), (2, 2, "online", 6), (2, 2, "offline", 6)]
    if tier != "quick":
        shapes += [(3, 2, "all", 3), (4, 1, "all", 5), (2, 3, "all", 3), (3, 2, "online", 6)]
    for P, S, stage, ticks in shapes:
        cfg = 'CONSTANTS\n P = %d\n S = %d\n Stage = "%s"\n MaxTicks = %d\nSPECIFICATION Spec\nINVARIANTS Running Reported\nPROPERTY Terminates\n' % (P, S, stage, ticks)
        r = tlc.run("MCTiming", cfg, workers=8, timeout=600, heap="6g")
        if not r.ok:
            raise tlc.ModelError("MCTiming: " + r.error())
        out.states += r.distinct
        out.transitions += r.generated
        out.notes.append("MCTiming %d parties, %d servers, stage %s: %d states" % (P, S, stage, r.distinct))

def scenarios(rng, n):
    res = []
    while len(res) < n:
        i = len(res)
        P, S = [(2, 1), (2, 2), (3, 1), (3, 2), (2, 3), (4, 1), (2, 1), (2, 2)][i % 8]
        q = [rng.choice([0, 1, 1, 2, 3]) for _ in range(S)]
        kw = {}
        c = i % 3
        if c == 0:       # time passes before every message
            q, kw = [min(x, 2) for x in q], dict(script=[])
        elif c == 1:     # before some
            kw = dict(policy="random")
        else:            # before one or two
            st = rng.choice(["all", "all", "online", "offline"])
            hs = []
            for _ in range(rng.choice([1, 2, 3])):
                m = rng.choice(suites.KINDS[st])
                hs.append({"k": rng.randrange(P), "s": rng.randrange(S), "m": m[:3], "i": int(m[3]) if m[:3] == "rdy" else "last"})
            if S > 1 and rng.random() < 0.5:
                # some servers have no clients: they may have nothing to wait for when their sibling's responses are late
                st, busy = rng.choice(["all", "online"]), rng.randrange(S)
                q = [rng.choice([1, 2, 4]) if s == busy else 0 for s in range(S)]
                hs = [{"k": k, "s": rng.randrange(S), "m": "rsp", "i": rng.choice([0, "last"])} for k in range(1, P)]
            kw = dict(holds=hs)
        res.append(suites.sc("time", P, S, rng.randrange(S, S + 2), rng.choice([0, 1, 1]) if c else rng.choice([0, 0, 1]), q,
                             st if c == 2 else rng.choice(["all", "all", "online", "offline"]), seed=rng.randrange(1, 10**6),
                             clock=rng.choice([3, 1000, 3000000, 3000000]) if c < 2 else rng.choice([1000, 100000000]), order=rng.randrange(100), **kw))
    return res

def record(tr):
    ev = []
    for e in tr["ev"]:
        if e["t"] == "C":
            ev.append({"t": "C", "d": e["d"], "k": 0, "s": 0, "m": "", "n": 0})
        elif e["t"] == "D":
            ev.append({"t": "D", "d": 0, "k": e["k"], "s": e["s"] + 1, "m": e["m"], "n": tr["msgs"][e["i"] - 1]["n"] if e["m"] == "cnt" else 0})
    ok = not tr["aux"]["hang"] and all(rc == 0 for rc in tr["aux"]["rc"].values())
    t = tr["aux"]["times"]
    return {"t": "run", "ok": int(ok), "P": tr["P"], "S": tr["S"], "stage": tr["stage"], "scenario": tr["aux"]["scenario"]["name"], "seed": tr["aux"]["scenario"]["seed"], "ev": ev,
            "off": [[t["%d_%d" % (k, s)][0] for s in range(tr["S"])] for k in range(tr["P"] - 1)],
            "on": [[t["%d_%d" % (k, s)][1] for s in range(tr["S"])] for k in range(tr["P"] - 1)]}

def times(prop, tier, rng, builder, out, deadline):
    n = 120 if tier == "quick" else 2500
    scs = scenarios(rng, n)
    def make():
        traces, errors = proto.run_all([suites.Scenario(**dict(s.dict(), name=s.name.split(":")[-1])) for s in scs], builder, deadline)
        if len(errors) > max(3, n // 20):
            raise RuntimeError("could not run scenarios: %s" % errors[:2])
        out.messages += sum(len(t["msgs"]) for t in traces)
        return [record(t) for t in traces]
    comp.check(prop, "Timing", make, out, "runs with a virtual clock")
