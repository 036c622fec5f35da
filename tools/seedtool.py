#!/usr/bin/env python3
"""Development helper for planted changes (never used by a check).

seedtool.py verify ID...   patch applies, builds, stable tests pass, demo 0 on clean / !=0 on patched
seedtool.py catch ID [P..] run the checks of the property (or the given ones) against the patched tree
"""
import json, os, subprocess, sys, time, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "/tmp/sb"

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)

def prepare(name):
    d = os.path.join(BASE, name)
    if not os.path.isdir(d):
        os.makedirs(BASE, exist_ok=True)
        sh("cp -a /repo %s && rm -rf %s/_build" % (d, d))
    sh("git -C %s checkout -q -- . && git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD" % (d, d, d))
    os.makedirs(d + "/_build", exist_ok=True)
    for f in ("build.sh", "test.sh"):
        s = open("/opt/vp/" + f).read().replace("/repo", d).replace("/opt/vp/build.sh", BASE + "/%s.build.sh" % name)
        open(BASE + "/%s.%s" % (name, f), "w").write(s)
    return d

def build(name):
    p = sh("bash %s/%s.build.sh" % (BASE, name))
    return p.returncode == 0, p.stdout[-1500:] + p.stderr[-1500:]

def demo(seed, d):
    t = time.time()
    p = sh("bash %s/demo.sh" % seed, cwd=d, timeout=300)
    return p.returncode, time.time() - t, (p.stdout + p.stderr)[-600:]

def verify(ids):
    c = prepare("clean"); assert build("clean")[0]
    for i in ids:
        seed = "/tmp/sb/run-" + i
        sh("rm -rf %s; cp -r %s/seeded/%s %s; rm -f %s/patch.diff %s/meta.json" % (seed, V, i, seed, seed, seed))
        w = prepare("w")
        p = sh("git -C %s apply %s/seeded/%s/patch.diff" % (w, V, i))
        if p.returncode: print(i, "PATCH FAILS", p.stderr); continue
        ok, o = build("w")
        if not ok: print(i, "BUILD FAILS", o); continue
        sh("bash %s/w.test.sh %s/res.json" % (BASE, BASE))
        r = json.load(open(BASE + "/res.json"))
        a, b = demo(seed, c), demo(seed, w)
        good = a[0] == 0 and b[0] != 0 and not r["failed"] and len(r["passed"]) == 6
        print(i, "OK" if good else "BAD", "tests %d/%d" % (len(r["passed"]), len(r["failed"])), "clean %d (%.0fs)" % a[:2], "patched %d (%.0fs)" % b[:2], b[2][-200:].replace("\n", " | ") if good else (a[2], b[2]), flush=True)
        sh("rm -rf /tmp/sb/run-%s" % i)

def catch(i, props):
    w = prepare("w-" + i)
    p = sh("git -C %s apply %s/seeded/%s/patch.diff" % (w, V, i)); assert p.returncode == 0, p.stderr
    props = props or [json.load(open("%s/seeded/%s/meta.json" % (V, i)))["property"]]
    for c in props:
        t = time.time()
        p = sh("DPPIR_REPO=%s VERIF_TIER=quick VERIF_SEED=1 python3 lab/check.py %s" % (w, c), cwd=V)
        m = re.search(r"^%s: .*$" % c, p.stdout, re.M)
        print(i, c, {0: "MISSED", 1: "CAUGHT"}.get(p.returncode, "ERROR %s" % p.stderr[-500:]), "%.0fs" % (time.time() - t), m.group(0)[:220] if m else "", flush=True)
    sh("rm -rf %s" % w)

if __name__ == "__main__":
    if sys.argv[1] == "verify": verify(sys.argv[2:] or sorted(os.listdir(V + "/seeded")))
    else: catch(sys.argv[2], sys.argv[3:])
