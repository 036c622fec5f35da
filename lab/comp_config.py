"""C18."""
import os, random, shutil, struct, subprocess, tempfile
import build, comp, tlc

def model(prop, tier, rng, builder, out, deadline):
    for p, s, ip, w in [(1, 2, 1, 1), (2, 1, 1, 1), (1, 1, 2, 2)] if tier == "quick" else [(1, 2, 1, 2), (2, 1, 1, 2), (1, 2, 2, 1), (1, 1, 3, 2)]:
        r = tlc.run("MCConfig", tlc.cfg_text(dict(MP=p, MS=s, MIp=ip, MW=w), invariants=["Restored", "Refused", "NoTail"], deadlock=False), workers=8, timeout=3000)
        if not r.ok:
            raise tlc.ModelError(r.error())
        out.states += r.distinct
        out.transitions += r.generated
        out.notes.append("MCConfig up to %d parties, %d servers: %d states" % (p, s, r.distinct))

def hexd(v):
    return struct.pack("<d", v).hex()

def gen(builder, dump, mode, P, S, db, eps, delta, ips, out, prop):
    """Runs the real generator, reads its file with the real reader."""
    exe = builder.gen_config("std")
    d = tempfile.mkdtemp(prefix="dppir-gen-")
    try:
        f = os.path.join(d, "cfg")
        n = P * S
        if mode == "interactive":
            stdin = "%s\n%s\n%s\n%d %d\n" % (db, eps, delta, P, S) + "".join((i if i != "127.0.0.1" else "") + "\n" for i in ips)
            cmd = [exe, f]
        else:
            cmd = [exe, f, db, eps, delta, str(P), str(S)] + (ips if mode == "ips" else [])
            stdin = ""
        p = subprocess.run(cmd, input=stdin, capture_output=True, text=True, cwd=d, timeout=60)
        r = {"t": "gen", "mode": mode, "P": P, "S": S, "db": str(int(db)), "eps": hexd(float(eps)), "delta": hexd(float(delta)),
             "ips": [i.encode().hex() for i in ips], "fits": 1 if P <= 255 and S <= 255 else 0, "refused": 0, "got": {}, "match": []}
        if p.returncode != 0 or not os.path.exists(f):
            r["refused"] = 1
            return r
        q = subprocess.run([dump, "dump", f], capture_output=True, text=True, cwd=d, timeout=60)
        if q.returncode != 0:
            r["refused"] = 1   # what was generated cannot be read back
            return r
        import json
        g = [json.loads(l) for l in q.stdout.splitlines() if l.startswith("{")][0]
        r["got"], r["match"] = g["got"], g["match"]
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)

def c18(prop, tier, rng, builder, out, deadline):
    seed = comp.Seeds(rng)
    n = 50 if tier == "quick" else 1500
    d = tempfile.mkdtemp(prefix="dppir-cfg-")
    try:
        comp.check(prop, "Config", lambda: comp.harness(builder, "h_config", ["rt", seed(), n, d], "std", out, prop, "a configuration cannot be stored or read back")
                   + ([] if out.viol else comp.harness(builder, "h_config", ["rt", seed(), 30, d], "small", out, prop, "a configuration cannot be stored or read back")), out, "round trips")
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if out.viol:
        return
    try:
        dump = builder.harness("h_config", "std")
    except build.BuildError:
        return
    shapes = [(p, s) for p in range(1, 6) for s in range(1, 5)] + [(2, 100), (10, 100), (255, 3), (4, 250), (3, 255), (100, 10), (20, 50), (500, 2), (256, 2), (2, 256), (300, 1)]
    if tier != "quick":
        shapes += [(rng.randrange(1, 256), rng.randrange(1, 256)) for _ in range(30)] + [(p, s) for p in range(6, 12) for s in range(1, 12)]
    def make():
        recs = []
        for p, s in shapes:
            for mode in ("args", "ips", "interactive"):
                if p * s > 1100 and tier == "quick":
                    continue
                if mode == "args":
                    ips = ["127.0.0.1"] * (p * s)
                else:
                    ips = [rng.choice(["127.0.0.1", "10.%d.%d.%d" % (rng.randrange(256), i % 256, i // 256), "host-%d.example.org" % i]) for i in range(p * s)]
                recs.append(gen(builder, dump, mode, p, s, str(rng.choice([1, 2, 1000, 65536, 2500000, 100000000, 2**31 - 1])), rng.choice(["0", "0.1", "1", "2.5", "0.0001", "1e-3"]),
                                rng.choice(["0", "0.000001", "1e-9", "0.5", "1e-300"]), ips, out, prop))
        return recs
    comp.check(prop, "Config", make, out, "generated configurations")
