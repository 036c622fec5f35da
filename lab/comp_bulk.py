"""Large runs (lab/bulk.py) judged by Bulk.tla."""
import concurrent.futures as cf
import os, time
import build, bulk, comp, lab

# (variant, P, S, db, noise per row, queries per server, stage, socket buffer); socket buffer 0: the system's
FLOOD = [
    ("tiny", 2, 2, 30, 40, [300, 300], "online", 4096), ("tiny", 2, 2, 40, 100, [0, 900], "online", 4096),
    ("tiny", 2, 3, 60, 30, [200, 0, 300], "all", 4096), ("tiny", 3, 2, 20, 30, [100, 100], "all", 4096),
    ("small", 2, 2, 40, 30, [300, 300], "offline", 4096), ("tiny", 2, 4, 100, 40, [50, 100, 0, 300], "online", 4096),
    ("std", 2, 2, 800000, 7, [5, 5], "online", 0), ("std", 3, 2, 400000, 4, [5, 5], "online", 0), ("std", 2, 4, 800000, 6, [5, 0, 9, 100], "online", 0),
]
DEEP = [
    ("std", 2, 2, 2000000, 9, [5, 5], "online", 0), ("std", 2, 4, 3000000, 6, [5, 0, 9, 100], "online", 0), ("std", 3, 2, 2000000, 4, [5, 5], "online", 0),
    ("std", 2, 2, 4000, 8, [3000, 2000], "all", 0), ("small", 3, 3, 30, 40, [300, 0, 30], "all", 4096), ("tiny", 4, 2, 10, 20, [90, 30], "all", 4096),
    ("std", 2, 2, 30000, 3, [30000, 20000], "all", 0), ("std", 2, 2, 200000, 3, [9, 9], "online", 100000),
]
# counters beyond 16 bits
WIDE = [("std", 2, 1, 100, 0, [66000], "online", 0), ("std", 2, 2, 90, 300, [70000, 40000], "online", 0), ("std", 2, 1, 90, 10, [66000], "all", 0)]
WIDER = [("std", 3, 2, 70000, 1, [66000, 66000], "all", 0), ("std", 2, 1, 10, 0, [3000000], "online", 0), ("std", 2, 3, 5000000, 4, [10, 10, 10], "online", 0)]
# listed in KNOWN_FINDINGS.txt
KNOWN = {"C02": [("std-P2S2-db200000-n3-q3_3-online-sockbuf4096", ("std", 2, 2, 200000, 3, [3, 3], "online", 4096))]}

def record(prop, builder, c, seed, idle=6.0, limit=90):
    v, P, S, db, noise, q, stage, sb = c
    r = bulk.run(builder.program(v), P, S, db, noise, q, stage, seed=seed, sockbuf=sb, limit=limit, idle=idle)
    ex = [(-1 if rc is None else rc & 0xff) for _, rc in sorted(r["exits"].items())]
    return {"t": "bulk", "prop": prop, "P": P, "S": S, "variant": v, "db": db, "noise": noise, "q": list(q), "stage": stage, "sockbuf": sb, "seed": seed, "exits": ex, "wall": str(round(r["wall"], 2)), "out": str(r["out"])[:500]}


def runs(quick, deep, label, workers=4, limit=90):
    def bulk_runs(prop, tier, rng, builder, out, deadline):
        cs = quick + (deep if tier != "quick" else [])
        for v in {c[0] for c in cs}:
            builder.program(v)
        def make():
            with cf.ThreadPoolExecutor(workers) as ex:
                return list(ex.map(lambda c: record(prop, builder, c, rng.randrange(1, 10**6), limit=limit if tier == "quick" else 1200), cs))
        comp.check(prop, "Bulk", make, out, label)
        listed = open(os.path.join(build.VERIF, "KNOWN_FINDINGS.txt")).read()
        for name, c in KNOWN.get(prop, []) if not out.viol else []:
            r = record(prop, builder, c, rng.randrange(1, 10**6))
            if -1 in r["exits"] and all(x in (0, -1) for x in r["exits"]):
                if "known: property=%s id=%s " % (prop, name) in listed:
                    print("KNOWN-FINDING: property=%s %s: the run comes to rest before all roles are done" % (prop, name), flush=True)
                    out.notes.append("known finding %s still there" % name)
                else:
                    comp.fail(out, prop, name, "the run comes to rest before all roles are done", {"record": r})
            elif any(r["exits"]):
                comp.fail(out, prop, name, "a role fails in a run without misbehaviour", {"record": r})
    return bulk_runs
flood = runs(FLOOD, DEEP, "large exchanges, small socket buffers")
wide = runs(WIDE, WIDER, "more than 65536 queries", 3, 250)
