"""C16, C17."""
import decimal, math
import comp, tlc
from decimal import Decimal as D
decimal.getcontext().prec = 60

def model(prop, tier, rng, builder, out, deadline):
    n, s = (40, 12) if tier == "quick" else (300, 40)
    r = tlc.run("MCNoise", tlc.cfg_text(dict(MN=n, MS=s), invariants=["Partition", "Lemma"], deadlock=False), workers=4, timeout=1500)
    if not r.ok:
        raise tlc.ModelError(r.error())
    out.states += r.distinct
    out.transitions += r.generated
    out.notes.append("MCNoise: all databases up to %d rows, %d servers: %d states" % (n, s, r.distinct))

def cutoff(e, d):
    return (D(2) / D(e)) * (D(1) / D(d)).ln()

def clear(x):
    """Far enough from an integer for double precision."""
    f = abs(x - x.to_integral_value())
    return f > D(10) ** -9 * max(D(1), abs(x)) * 10

def pairs(rng, n):
    res = []
    for e in (0.1, 0.01, 1.0, 2.0, 0.5, 3.7, 10.0, 1e-3, 1e-5, 0.2, 0.05, 50.0):
        for d in (1e-6, 1e-7, 1e-9, 0.5, 0.1, 0.9, 0.999, 1e-12, 1e-15, 1e-16, 1e-17, 1e-20, 1e-40, 1e-100, 1e-300, 0.51, 0.25, 0.75, 1.0):
            res.append((e, d))
    for e in (1e-6, 1e-7, 3e-8, 1.3e-8, 1e-8, 6e-9, 5e-9, 1e-9, 1e-12, 1e-300):
        for d in (0.1, 1e-6, 1e-9, 1e-18, 0.9):
            res.append((e, d))
    while len(res) < n:
        res.append((10 ** rng.uniform(-6, 2), 10 ** rng.uniform(-30, -0.001)))
    return res

def feed(ps):
    return "".join("%s %s %d\n" % (float(e).hex(), float(d).hex(), n) for e, d, n in ps)

def harness(builder, args, out, prop, ps, variant, timeout=600):
    recs = comp.harness(builder, "h_noise", args, variant, out, prop, "the noise code fails", stdin=feed(ps), timeout=timeout)
    return recs if len(recs) == len(ps) else []

def c16(prop, tier, rng, builder, out, deadline):
    n = 900 if tier == "quick" else 20000
    seed = comp.Seeds(rng)
    def amounts():
        ps = pairs(rng, n)
        bad = [(0.0, 0.5), (0.5, 0.0), (0.0, 0.0), (-1.0, 0.1), (1.0, -0.1), (1.0, 1.5), (1.0, 3.0), (float("nan"), 0.1), (1.0, float("nan")), (-0.0, 0.1), (0.1, -0.0)]
        raw = harness(builder, [seed(), 0], out, prop, [(e, d, 3) for e, d in ps + bad], "std")
        res = []
        for (e, d), r in zip(ps + bad, raw):
            q = {"t": "amount", "e": repr(e), "d": repr(d), "ok": r["ok"], "h": [[v if v < 2**31 else -1, c] for v, c in r["h"]], "valid": 1, "fits": 1, "want": 0}
            if e == 0 or d == 0:
                pass
            elif not (e > 0 and 0 < d <= 1):
                q["valid"] = 0
            else:
                c = cutoff(e, d)
                if d != 1.0 and (not clear(c) or abs(c * 2 - 2**32) < 1000):
                    continue
                q["fits"] = int(math.floor(2 * c) <= 2**32 - 1)
                q["want"] = int(c) if q["fits"] else 0
            res.append(q)
        return res
    comp.check(prop, "Noise", amounts, out, "noise amounts")
    if out.viol:
        return
    def chains():
        res, ps, lens = [], [], []
        for _ in range(30 if tier == "quick" else 300):
            e, d = 10 ** rng.uniform(-3, 1), 10 ** rng.uniform(-12, -0.1)
            ch = [(e, d)]
            for _ in range(20):
                e, d = (e * rng.uniform(.5, 1), d) if rng.random() < .5 else (e, d * 10 ** rng.uniform(-2, 0))
                ch.append((e, d))
            lens.append(len(ch))
            ps += ch
        raw = harness(builder, [seed(), 0], out, prop, [(e, d, 1) for e, d in ps], "std")
        i = 0
        for l in lens:
            v = [r["h"][0][0] for r in raw[i:i + l] if r["h"]]
            if len(v) == l and max(v) < 2**31:
                res.append({"t": "chain", "v": v})
            i += l
        return res
    comp.check(prop, "Noise", chains, out, "ever stricter parameters")
    if out.viol:
        return
    def sampled():
        ps = [(10 ** rng.uniform(-2, 1), 10 ** rng.uniform(-9, -0.01)) for _ in range(60)] + [(2.0, 0.3), (1.0, 0.9), (40.0, 0.9), (0.1, 1e-6)]
        res = []
        for edge, draws in ((1, 400), (0, 300)):
            raw = harness(builder, [seed(), edge], out, prop, [(e, d, draws) for e, d in ps], "sample")
            for (e, d), r in zip(ps, raw):
                c = 2 * cutoff(e, d)
                if not clear(c):
                    continue
                res.append({"t": "sampled", "e": repr(e), "d": repr(d), "ok": r["ok"], "h": [[min(v, 2**31 - 1), k] for v, k in r["h"]], "max": int(c)})
        return res
    comp.check(prop, "Noise", sampled, out, "sampled noise, extreme draws")
    if out.viol:
        return
    draws = 200000 if tier == "quick" else 4000000
    def hist():
        res = []
        ps = [(2.0, math.exp(-3.5), draws), (0.5, math.exp(-1.6), draws), (1.0, math.exp(-4.2), draws), (0.1, 1e-6, draws), (4.0, 0.5, draws), (1.0, 0.6, draws)]
        raw = harness(builder, [seed(), 0], out, prop, ps, "sample")
        for (e, d, _), r in zip(ps, raw):
            res.append({"t": "bins", "e": repr(e), "d": repr(d), "bins": bins(e, d, dict(map(tuple, r["h"])), draws)})
        return res
    comp.check(prop, "Noise", hist, out, "sampled noise, distribution over %d draws" % draws)

def bins(e, d, seen, n):
    c, b = float(cutoff(e, d)), 2.0 / e
    cdf = lambda x: 0.5 * math.exp(x / b) if x < 0 else 1 - 0.5 * math.exp(-x / b)
    top = int(math.floor(2 * c))
    res = []
    for v in range(top + 1):
        lo = 0.0 if v == 0 else cdf(v - c)
        hi = 1.0 if v == top else cdf(v + 1 - c)
        res.append([seen.get(v, 0), int(round(n * (hi - lo)))])
    return res

def probs(e, d):
    c, b = float(cutoff(e, d)), 2.0 / e
    cdf = lambda x: 0.5 * math.exp(x / b) if x < 0 else 1 - 0.5 * math.exp(-x / b)
    top = int(math.floor(2 * c))
    return [(1.0 if v == top else cdf(v + 1 - c)) - (0.0 if v == 0 else cdf(v - c)) for v in range(top + 1)]

def wire(prop, tier, rng, builder, out, deadline):
    """Noise that the real program (sampling build) adds per row, over many runs: its distribution,
    over all rows and for each, and the independence of the rows."""
    import proto, suites
    n, db = (240, 20) if tier == "quick" else (3000, 40)
    e, d = 1.0, math.exp(-1.3)
    def make():
        res, scs = [], []
        for S in (1, 2):
            for i in range(n // 2):
                x = suites.sc("noise#%d#" % S, 2, S, db, 0, [0] * S, "online", seed=rng.randrange(1, 10**6), real=[[0, s] for s in range(S)], variant="sample")
                x.eps, x.delta, x.noise, x.nmax = e, d, -1, 5
                scs.append(x)
        traces, errors = proto.run_all(scs, builder, deadline)
        peq = sum(p * p for p in probs(e, d))
        for S in (1, 2):
            runs = []
            for t in traces:
                if "#%d#" % S not in t["name"]:
                    continue
                rows = [0] * db
                for ev in t["ev"]:
                    if ev["t"] == "S" and ev["k"] == 1 and ev["m"] == "qry":
                        v = t["msgs"][ev["i"] - 1]["tally"]
                        if 0 <= v < db:
                            rows[v] += 1
                runs.append(rows)
            if not runs:
                continue
            def table(what, sample):
                seen = {}
                for r in sample:
                    seen[r] = seen.get(r, 0) + 1
                res.append({"t": "bins", "what": what, "bins": bins(e, d, seen, len(sample)), "S": S})
            table("all rows", [r for rows in runs for r in rows])
            for x in range(db):
                table("row %d" % x, [rows[x] for rows in runs])
            for k in range(1, db - 2):
                ps = [rows[i] == rows[i + k] for rows in runs for i in range(db - k)]
                res.append({"t": "indep", "k": k, "eq": sum(ps), "want": int(round(peq * len(ps))), "S": S})
            for x in range(db - 1):
                res.append({"t": "indep", "k": 1, "row": x, "eq": sum(rows[x] == rows[x + 1] for rows in runs), "want": int(round(peq * len(runs))), "S": S})
            res.append({"t": "fresh", "distinct": len({tuple(r) for r in runs}), "S": S, "runs": len(runs)})
        return res
    comp.check(prop, "Noise", make, out, "noise per row on the wire over %d runs" % n)

def c17(prop, tier, rng, builder, out, deadline):
    lim_db, lim_s = (64, 12) if tier == "quick" else (400, 40)
    def make():
        ps = [(db, s) for db in range(1, lim_db + 1) for s in range(1, lim_s + 1) if s <= db]
        for _ in range(300 if tier == "quick" else 6000):
            db = int(10 ** rng.uniform(0.5, 9.3))
            ps.append((db, rng.randrange(1, min(255, db) + 1)))
        ps += [(2**31 - 2, s) for s in (1, 2, 3, 7, 254)] + [(65535, 255), (65536, 255), (65537, 200), (255, 255), (256, 255), (16777217, 3), (33554431, 5), (2000000011, 251)]
        recs = comp.harness(builder, "h_range", [], "std", out, prop, "FindRange fails on a valid database", stdin="".join("%d %d\n" % p for p in ps))
        for r in recs:
            r["r"] = [[min(a, 2**31 - 1), min(b, 2**31 - 1)] for a, b in r["r"]]
        return recs
    comp.check(prop, "Noise", make, out, "row ranges")
