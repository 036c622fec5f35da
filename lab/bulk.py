"""Large runs: all roles real and wired directly to each other, no controller in between.
Only what the processes themselves report (and how long they take) is observed; batches are
large enough to cross every buffer, counter and socket limit."""
import os, random, shutil, signal, socket, subprocess, tempfile, time
import lab, sodium, hashlib, build

def params(n):
    import suites
    return suites.eps_delta(n)

def run(prog, P, S, db, noise, q, stage, seed=1, sockbuf=0, env=None, limit=120, seeds=None, idle=10.0):
    """Returns {"exits": {node: rc}, "hang": ...}. A hang is: nobody runs and nothing ends for `idle' s."""
    for _ in range(4):
        r = _run(prog, P, S, db, noise, q, stage, seed, sockbuf, env, limit, seeds, idle)
        if not r["port"]:
            return r
    raise lab.InfraError("ports")

def _run(prog, P, S, db, noise, q, stage, seed, sockbuf, env, limit, seeds, idle):
    e, d = params(noise)
    sc = lab.Scenario(name="bulk", P=P, S=S, db=db, eps=e, delta=d, noise=noise, q=q, stage=stage, seed=seed)
    rng = random.Random(seed)
    keys = [sodium.seed_keypair(hashlib.sha256(b"k%d-%d" % (seed, k)).digest()) for k in range(P)]
    ports = lab.alloc_ports(2 * P * S, rng)
    grid = lambda o: [[ports[o + k * S + s] for s in range(S)] for k in range(P)]
    seeds = seeds or [[rng.randrange(1, 10**6) for _ in range(P)], [[rng.randrange(1, 10**6) for _ in range(S)] for _ in range(P)]]
    tmp = tempfile.mkdtemp(prefix="dppir-bulk-")
    procs, outs = {}, {}
    try:
        cfg = os.path.join(tmp, "c")
        lab.write_config(cfg, sc, keys, grid(0), grid(P * S), seeds)
        ev = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=1", LAB_RNG=str(seed))
        if sockbuf:
            ev["LAB_SOCKBUF"] = str(sockbuf)
        ev.update(env or {})
        for k in range(P - 1, -2, -1):
            for s in range(S):
                cmd = [prog, "--config=" + cfg, "--stage=" + stage, "--server_id=%d" % s]
                cmd += ["--role=client", "--queries=%d" % q[s]] if k < 0 else ["--role=party", "--party_id=%d" % k]
                o = open(os.path.join(tmp, "o%d_%d" % (k, s)), "wb")
                ev["LAB_RNG"] = str(seed * 1009 + (k + 1) * 101 + s)
                procs[(k, s)] = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=o, stderr=subprocess.STDOUT, env=ev, cwd=tmp,
                                                 start_new_session=True, preexec_fn=lab.limits)
                o.close()
        t0 = last = time.time()
        prev, hang, ended, ended_at = None, "", 0, 0
        while True:
            rc = {n: p.poll() for n, p in procs.items()}
            if all(v is not None for v in rc.values()):
                break
            n = sum(v is not None for v in rc.values())
            if n != ended:
                ended, ended_at = n, time.time()
            if any(v not in (None, 0) for v in rc.values()) and (time.time() - last > 0.5 or time.time() - ended_at > 3):
                break       # the others may wait for it for ever
            if ended and time.time() - ended_at > 40:
                hang = "left behind"
                break
            cur = (tuple(sorted(rc.items(), key=str)), tuple(cpu(p.pid) for n, p in procs.items() if rc[n] is None))
            if cur != prev:
                prev, last = cur, time.time()
            if time.time() - last > idle:
                hang = "idle"
                break
            if time.time() - t0 > limit:
                hang = "slow"
                break
            time.sleep(0.02)
        for n in procs:
            with open(os.path.join(tmp, "o%d_%d" % n), "rb") as f:
                outs[n] = f.read().decode("utf-8", "replace")
        return {"exits": rc, "hang": hang, "wall": time.time() - t0,
                "text": outs, "port": any("Address already in use" in o for o in outs.values()),
                "out": {n: o[-400:] for n, o in outs.items() if rc[n] != 0}}
    finally:
        for p in procs.values():
            if p.poll() is None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
            p.wait()
        shutil.rmtree(tmp, ignore_errors=True)

def cpu(pid):
    try:
        with open("/proc/%d/stat" % pid) as f:
            x = f.read().rsplit(")", 1)[1].split()
        return x[0] if x[0] != "R" else "R%f" % time.time(), x[11], x[12]
    except OSError:
        return None
