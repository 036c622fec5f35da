"""C12, C13."""
import comp, tlc

def model(primes, n, word):
    def part(prop, tier, rng, builder, out, deadline):
        for p, k, w in primes if tier == "quick" else primes + [(7, 2, 4), (5, 3, 4), (11, 2, 2)]:
            r = tlc.run("MCSharing", tlc.cfg_text(dict(MPrime=p, MN=k, MWord=w), invariants=["Reconstructs", "InField"], deadlock=False), workers=4, timeout=1500)
            if not r.ok:
                raise tlc.ModelError(r.error())
            out.states += r.distinct
            out.transitions += r.generated
            out.notes.append("MCSharing p=%d n=%d words<%d: %d states, hiding checked over all shares" % (p, k, w, r.distinct))
    part.__name__ = "model"
    return part

def run(builder, args, variant, env, out, prop):
    return comp.harness(builder, "h_sharing", args, variant, out, prop, "the sharing code fails on valid input", env)

def c12(prop, tier, rng, builder, out, deadline):
    n = 1500 if tier == "quick" else 30000
    m = 300000 if tier == "quick" else 8000000
    seed = [rng.randrange(1, 10**6)]
    def fresh():
        seed[0] += 1
        return seed[0]
    def inc():
        return run(builder, ["inc", fresh(), n], "std", {}, out, prop) + run(builder, ["inc", fresh(), 200], "small", {}, out, prop) \
            + run(builder, ["edge", fresh(), 4000], "std", {}, out, prop)
    comp.check(prop, "Sharing", inc, out, "incremental sharing")
    if out.viol:
        return
    def dist():
        recs = run(builder, ["dist", fresh(), m], "std", {}, out, prop)
        for r in recs:
            r["prop"] = "C12"
        return recs
    comp.check(prop, "Sharing", dist, out, "distribution over %d draws" % m)
    if out.viol:
        return
    comp.check(prop, "Sharing", lambda: many(builder, tier, fresh(), out, prop), out, "many parties, long runs")
    if out.viol:
        return
    comp.check(prop, "Sharing", lambda: [gen(builder, "raw", "C12", out, prop, lambda r: [(s["x"], s["y"]) for s in r["shares"]])], out, "generator dependence")

def many(builder, tier, seed, out, prop):
    return [r for r in run(builder, ["many", seed, 8000 if tier == "quick" else 200000], "std", {}, out, prop) if r.get("prop", "C13") == prop]

def gen(builder, mode, tag, out, prop, values):
    a = run(builder, [mode, 1, 200], "std", {"LAB_RNG": "5"}, out, prop)
    b = run(builder, [mode, 1, 200], "std", {"LAB_RNG": "5"}, out, prop)
    c = run(builder, [mode, 1, 200], "std", {"LAB_RNG": "6"}, out, prop)
    d = run(builder, [mode, 1, 200], "std", {}, out, prop)
    va, vc, vd = ([v for r in x for v in values(r)] for x in (a, c, d))
    rep = len(va) + len(vc) + len(vd) - len(set(va) | set(vc) | set(vd))
    return {"t": "gen", "prop": tag, "same": 1 if a == b else 0, "repeated": rep, "n": len(va)}

def c13(prop, tier, rng, builder, out, deadline):
    n = 1200 if tier == "quick" else 20000
    m = 20000 if tier == "quick" else 400000
    seed = [rng.randrange(1, 10**6)]
    def fresh():
        seed[0] += 1
        return seed[0]
    comp.check(prop, "Sharing", lambda: run(builder, ["mask", fresh(), n], "std", {}, out, prop) + run(builder, ["mask", fresh(), 200], "small", {}, out, prop), out, "masks")
    if out.viol:
        return
    def dist():
        recs = run(builder, ["maskdist", fresh(), m], "std", {}, out, prop)
        for r in recs:
            r["prop"] = "C13"
        return recs
    comp.check(prop, "Sharing", dist, out, "mask distribution over %d draws" % m)
    if out.viol:
        return
    comp.check(prop, "Sharing", lambda: many(builder, tier, fresh(), out, prop), out, "many parties, long runs")
    if out.viol:
        return
    comp.check(prop, "Sharing", lambda: [gen(builder, "rawmask", "C13", out, prop, lambda r: [tuple(m) for m in r["m"]])], out, "generator dependence")
