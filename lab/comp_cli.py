"""C22."""
import concurrent.futures as cf
import json, os, re, shutil, struct, subprocess, tempfile
import comp, lab, sodium, tlc

def enumerate_options(P, S):
    cfg = tlc.cfg_text(dict(MP=P, MS=S), invariants=["Sane", "Emit"], deadlock=False)
    r = tlc.run("MCCli", cfg, workers=1, timeout=300)
    if not r.ok:
        raise tlc.ModelError(r.error())
    text = re.sub(r"\n\s+", " ", r.out)
    return [json.loads(json.loads('"%s"' % m.group(1))) for m in re.finditer(r'<<\s*"SCHED",\s*"(.*?)"\s*>>', text)], r

def invoke(prog, o, P, S, d, ports, pports, rc_wait=77):
    num = lambda x, n: {"neg": -1, "0": 0, "last": n - 1, "past": n, "far": 256, "3": 3, "huge": 2**32 + 3}[x]
    cmd = [prog]
    if o["config"] != "none":
        cmd.append("--config=" + os.path.join(d, o["config"]))
    if o["stage"] != "none":
        cmd.append("--stage=" + ("" if o["stage"] == "empty" else o["stage"]))
    if o["role"] != "none":
        cmd.append("--role=" + o["role"])
    if o["server"] != "none":
        cmd.append("--server_id=%d" % num(o["server"], S))
    if o["party"] != "none":
        cmd.append("--party_id=%d" % num(o["party"], P))
    if o["queries"] != "none":
        cmd.append("--queries=%d" % num(o["queries"], 0))
    fd, log = tempfile.mkstemp(dir=d)
    os.close(fd)
    try:
        p = subprocess.run(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=20, cwd=d,
                           env=dict(os.environ, LAB_NET=log), preexec_fn=lab.limits)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        rc = 999
    lines = open(log).read().split("\n")
    contacts, count = [], -1
    for l in lines:
        w = l.split()
        if w and w[0] in ("connect", "listen"):
            node = [[w[0], kind, k, s] for kind, g in (("main", ports), ("par", pports)) for k in range(P) for s in range(S) if g[k][s] == int(w[1])]
            contacts.append(node[0] if node else [w[0], "unknown", -1, -1])
        if w and w[0] == "send" and count < 0 and len(w) > 1 and len(w[1]) == 8:
            count = struct.unpack("<i", bytes.fromhex(w[1]))[0]
    os.unlink(log)
    return {"t": "cli", "o": o, "P": P, "S": S, "rc": rc, "waits": 1 if "wait" in [l.strip() for l in lines] else 0, "contacts": contacts, "count": count, "cmd": " ".join(cmd[1:])}

def c22(prop, tier, rng, builder, out, deadline):
    prog = builder.program("std")
    for P, S in [(3, 2), (2, 1)] if tier == "quick" else [(3, 2), (2, 1), (2, 3), (4, 4), (5, 1)]:
        opts, r = enumerate_options(P, S)
        out.states += r.distinct
        out.transitions += r.generated
        few = [x["o"] for x in opts if x["d"] <= 1]
        many = [x["o"] for x in opts if x["d"] > 1]
        valid = [x["o"] for x in opts if x["d"] == 0]
        if tier == "quick":
            rng.shuffle(few)
            few = valid[:120] + [x["o"] for x in rng.sample(opts, 0)] + few[:900]
            many = rng.sample(many, 300)
        d = tempfile.mkdtemp(prefix="dppir-cli-")
        try:
            ports = [[20000 + k * S + s for s in range(S)] for k in range(P)]
            pports = [[21000 + k * S + s for s in range(S)] for k in range(P)]
            keys = [sodium.seed_keypair(bytes([k]) * 32) for k in range(P)]
            sc = lab.Scenario(P=P, S=S, db=5)
            lab.write_config(d + "/ok", sc, keys, ports, pports, [[k + 1 for k in range(P)], [[k * S + s for s in range(S)] for k in range(P)]])
            full = open(d + "/ok", "rb").read()
            def make():
                # another place to cut the file each time
                with open(d + "/cut", "wb") as f:
                    f.write(full[:rng.choice([0, 3, 20, 27, 28, 60, 100, len(full) - 1, len(full) - 11, rng.randrange(len(full))])])
                with cf.ThreadPoolExecutor(16) as ex:
                    return list(ex.map(lambda o: invoke(prog, o, P, S, d, ports, pports), few + many))
            comp.check(prop, "Cli", make, out, "invocations, %d parties with %d servers (%d enumerated)" % (P, S, len(opts)))
            if out.viol:
                return
            def cuts():
                recs = []
                o = {"config": "cut", "stage": "all", "role": "party", "server": "0", "party": "0", "queries": "none"}
                for i in range(0, len(full), 1 if tier != "quick" else 7):
                    with open(d + "/cut", "wb") as f:
                        f.write(full[:i])
                    recs.append(invoke(prog, o, P, S, d, ports, pports))
                return recs
            comp.check(prop, "Cli", cuts, out, "incomplete configuration files")
            if out.viol:
                return
        finally:
            shutil.rmtree(d, ignore_errors=True)
