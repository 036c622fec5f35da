"""C14, C15."""
import comp, tlc

def run(builder, args, variant, out, prop, timeout=300):
    return comp.harness(builder, "h_shuffle", args, variant, out, prop, "the shuffler fails on a valid batch", timeout=timeout)

def model(prop, tier, rng, builder, out, deadline):
    for S, m in [(2, 3), (3, 2)] if tier == "quick" else [(2, 3), (3, 2), (2, 4), (3, 3)]:
        r = tlc.run("MCShuffle", tlc.cfg_text(dict(MS=S, MMax=m), invariants=["Bijection", "Returns", "Balance", "Uniform"], deadlock=False), workers=6, timeout=2500, heap="8g")
        if not r.ok:
            raise tlc.ModelError(r.error())
        out.states += r.distinct
        out.transitions += r.generated
        out.notes.append("MCShuffle S=%d max load %d: %d states (all loads, assignments, local orders)" % (S, m, r.distinct))

def c14(prop, tier, rng, builder, out, deadline):
    n = 300 if tier == "quick" else 6000
    seed = comp.Seeds(rng)
    comp.check(prop, "Shuffle", lambda: run(builder, ["local", seed(), n], "std", out, prop) + run(builder, ["local", seed(), n // 4], "small", out, prop), out, "local shuffle")
    if not out.viol:
        comp.check(prop, "Shuffle", lambda: run(builder, ["par", seed(), n], "std", out, prop) + run(builder, ["par", seed(), n // 4], "small", out, prop), out, "shuffle across siblings")
    if not out.viol:
        comp.check(prop, "Shuffle", lambda: run(builder, ["big", seed(), 4 if tier == "quick" else 60], "std", out, prop), out, "large batches (summaries)")

def c15(prop, tier, rng, builder, out, deadline):
    n = 24000 if tier == "quick" else 600000
    seed = comp.Seeds(rng)
    comp.check(prop, "Shuffle", lambda: run(builder, ["freq", seed(), n], "std", out, prop, timeout=900), out, "frequencies over %d seeds" % n)

# ---- the same on the wire: orders produced by the real party over many seeds ----------
PRIME = 2147483647
def orders(tr, k, kind):
    """[(input label, output position)] of one run; labels are global input positions, or
    ("n", row) for the party's own noise (only next to the last party)."""
    inp, outp = [], []
    for e in sorted((e for e in tr["ev"] if e["t"] == "S" and e["m"] in ("cph", "qry")), key=lambda e: e["s"]):
        m = tr["msgs"][e["i"] - 1]
        if e["k"] == k:
            inp.append((e["m"], m))
        elif e["k"] == k + 1:
            outp.append((e["m"], m))
    sec_in = [m for x, m in inp if x == "cph"]
    sec_out = [m for x, m in outp if x == "cph"]
    res = []
    if kind == "cph":
        pos = {m["inner"]: i for i, m in enumerate(sec_in)}
        for j, m in enumerate(sec_out):
            if m["id"] in pos:
                res.append((pos[m["id"]], j))
        return res
    nxt = {m["lay"][0]["tag"]: m["lay"][0]["next"] for m in sec_in if m["lay"]}
    pos = {nxt.get(m["tag"]): i for i, (x, m) in enumerate([y for y in inp if y[0] == "qry"])}
    later = {m["lay"][0]["tag"]: m["lay"][0] for m in sec_out if m["lay"]}
    for j, (x, m) in enumerate([y for y in outp if y[0] == "qry"]):
        if m["tag"] in pos:
            res.append((pos[m["tag"]], j))
        elif m["tag"] in later and tr["P"] == k + 2:
            l = later[m["tag"]]
            res.append((len(pos) + (m["tally"] * l["y"] + l["x"]) % PRIME, j))
    return res

def wire(prop, tier, rng, builder, out, deadline):
    import lab, proto, suites
    n = 700 if tier == "quick" else 12000
    shapes = [("S=1 no noise", 2, 1, 2, 0, [5], 0), ("S=1 noise", 2, 1, 2, 1, [4], 0), ("S=2 noise", 2, 2, 2, 1, [3, 1], 0),
              ("S=3 uneven", 2, 3, 3, 0, [4, 0, 2], 0), ("S=2 middle party", 3, 2, 2, 0, [2, 3], 1), ("S=1 middle party", 3, 1, 2, 0, [4], 1)]
    def make():
        scs, recs = [], []
        for name, P, S, db, nz, q, k in shapes:
            for i in range(n):
                s = lambda: rng.randrange(1, 2**31 - 1)
                scs.append(suites.sc("order#%s#" % name, P, S, db, nz, q, "all", seed=rng.randrange(1, 10**6), real=[[k, x] for x in range(S)],
                                     seeds=[[s() for _ in range(P)], [[s() for _ in range(S)] for _ in range(P)]]))
        rng.shuffle(scs)
        traces, errors = proto.run_all(scs, builder, deadline)
        for name, P, S, db, nz, q, k in shapes:
            total = sum(q) + nz * db
            mine = [t for t in traces if "#%s#" % name in t["name"]]
            for kind in ("cph", "qry"):
                rows = sum(q) if kind == "cph" or nz == 0 else total
                c, runs = [[0] * total for _ in range(rows)], 0
                for t in mine:
                    o = orders(t, k, kind)
                    if len(o) != rows or any(a >= rows or b >= total for a, b in o):
                        continue            # not this property's concern
                    runs += 1
                    for a, b in o:
                        c[a][b] += 1
                if runs >= n // 2:
                    recs.append({"t": "matrix", "what": "%s %s leaving the real party" % (name, kind), "n": runs, "c": c})
        return recs
    comp.check(prop, "Shuffle", make, out, "orders on the wire over %d seeds per shape" % n)
