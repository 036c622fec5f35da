"""Component conformance: a harness linked with the real code produces records, TLC judges them."""
import concurrent.futures as cf
import json, os, re, subprocess, tempfile, shutil
import build, tlc, validate

class Skip(Exception):
    pass

def records(builder, harness, args, variant="std", env=None, timeout=300, stdin=None):
    """Runs a harness, returns (records, return code, stderr)."""
    exe = builder.harness(harness, variant)
    e = dict(os.environ, ASAN_OPTIONS="detect_leaks=0")
    e.update(env or {})
    d = tempfile.mkdtemp(prefix="dppir-h-")
    try:
        p = subprocess.run([exe] + [str(a) for a in args], capture_output=True, text=True, env=e, cwd=d, timeout=timeout, input=stdin)
    except subprocess.TimeoutExpired:
        return [], "timeout", ""
    finally:
        shutil.rmtree(d, ignore_errors=True)
    recs = []
    for l in p.stdout.splitlines():
        if l.startswith("{"):
            try:
                recs.append(json.loads(l))
            except ValueError:
                pass
    return recs, p.returncode, p.stderr[-2000:]

class Seeds:
    """Fresh harness seeds, so that a repeated check uses other inputs."""
    def __init__(self, rng):
        self.n = rng.randrange(1, 10**6)
    def __call__(self):
        self.n += 1
        return self.n

def harness(builder, name, args, variant, out, prop, what, env=None, timeout=300, stdin=None):
    """Records of a harness; a harness that fails twice on valid input is a violation, one that
    does not compile against the current interfaces is skipped (the protocol level remains)."""
    try:
        builder.harness(name, variant)
    except build.BuildError as e:
        builder.program("std")
        note = "harness %s does not fit the current interfaces, skipped" % name
        if note not in out.notes:
            out.notes.append(note)
        return []
    recs, rc, err = records(builder, name, args, variant, env, timeout, stdin)
    if rc != 0:
        recs2, rc2, err2 = records(builder, name, args, variant, env, timeout, stdin)
        if rc2 != 0 and not out.viol:
            fail(out, prop, "%s %s" % (name, " ".join(map(str, args))), "%s (status %s): %s" % (what, rc2, err2[-300:]), {"args": args, "rc": rc2, "variant": variant})
    elif not recs:
        raise RuntimeError("harness %s %s printed no records: %s" % (name, args, err))
    return recs

def judge(module, recs, jobs=6):
    """Returns ([(record, property, explanation)], states)."""
    for i, r in enumerate(recs):
        r["name"] = "r%d" % i
    if not recs:
        return [], 0
    n = min(jobs, max(1, len(recs) // 40))
    shards = [recs[i::n] for i in range(n)]
    byname = {r["name"]: r for r in recs}
    def one(sh):
        fd, path = tempfile.mkstemp(prefix="dppir-rec-", suffix=".ndjson")
        with os.fdopen(fd, "w") as f:
            for r in sh:
                f.write(json.dumps(r) + "\n")
        try:
            return tlc.run("CompRun", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n", env={"TRACES": path}, workers=1, heap="2g",
                           template=("CompRun.tla.in", {"@MODULE@": module}))
        finally:
            os.unlink(path)
    viol, states = [], 0
    with cf.ThreadPoolExecutor(jobs) as ex:
        for sh, r in zip(shards, ex.map(one, shards)):
            states += r.distinct
            text = re.sub(r"\n\s+", " ", r.out)
            done = False
            for line in text.splitlines():
                line = line.replace('<< "', '<<"').replace(' >>', '>>')
                m = validate.VIOL.match(line)
                if m:
                    viol.append((byname[m.group(1)], m.group(2), m.group(4)))
                done = done or bool(validate.DONE.match(line))
            if not done and not viol:
                raise tlc.ModelError("%s: %s" % (module, r.error()))
    return viol, states

def check(prop, module, make, out, label):
    """make() -> records. A rejection counts if a second set of records is rejected as well."""
    recs = make()
    if out.viol:
        return
    viol, states = judge(module, recs)
    out.states += states
    out.transitions += len(recs)
    out.traces += len(recs)
    mine = [v for v in viol if v[1] == prop]
    out.notes.append("%s: %d records judged by %s.tla" % (label, len(recs), module))
    if recs:
        out.samples.append(short(recs[0]))
    if mine:
        viol2, _ = judge(module, make())
        again = [v for v in viol2 if v[1] == prop]
        if again:
            out.viol.append(("%s (%s)" % (mine[0][2], label), {"kind": "record", "module": module, "label": label, "record": mine[0][0], "again": again[0][2]}))
        else:
            out.notes.append("%s: rejection not repeated, ignored: %s" % (label, mine[0][2]))

def short(r):
    s = json.dumps(r)
    return r if len(s) < 1500 else s[:1500] + "..."

def fail(out, prop, label, what, rep):
    out.viol.append(("%s (%s)" % (what, label), {"kind": "harness", "label": label, **rep}))
