#!/usr/bin/env python3
"""check.py <property id>: decides one property on /repo's working tree.

exit 0: held on everything explored; exit 1 + VIOLATION line: broken (the rejection was
repeated); anything else: the check itself failed."""
import importlib, json, os, random, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, lab, plan, proto, tlc

VERIF = build.VERIF

def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER") or (sys.argv[2] if len(sys.argv) > 2 else "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    deadline = t0 + (420 if tier == "quick" else 3 * 3600)
    out = proto.Outcome()
    out.counters = {}
    builder = build.Builder()
    code = 0
    try:
        try:
            if lab.probe_config(builder.harness("h_config", "std")):
                out.notes.append("configurations are written with the program's own writer")
        except build.BuildError:
            builder.program("std")
        for part in plan.parts(prop, tier):
            t1 = time.time()
            part(prop, tier, random.Random("%s/%s/%d" % (prop, part.__name__, seed)), builder, out, deadline)
            print("[%s] %s: %.1fs" % (prop, part.__name__, time.time() - t1), flush=True)
            if out.viol:
                break
    except Exception:
        traceback.print_exc()
        if not out.viol:
            code = 2
    ev = os.path.join(VERIF, "evidence")
    os.makedirs(os.path.join(ev, "replay"), exist_ok=True)
    for i, (what, rep) in enumerate(out.viol[:3]):
        path = os.path.join(ev, "replay", "%s-%d.json" % (prop, i))
        with open(path, "w") as f:
            json.dump({"property": prop, "what": what, "replay": rep}, f, indent=1, default=str)
        print("%s: %s" % (prop, what))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        code = 1
    cov = {"states": out.states, "transitions": out.transitions, "traces_validated_against_impl": out.traces,
           "samples": out.samples[:8], "notes": out.notes}
    cov.update(out.counters)
    with open(os.path.join(ev, prop + ".json"), "w") as f:
        json.dump({"property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": plan.level(prop), "coverage": cov,
                   "assumptions": plan.ASSUMPTIONS.get(prop, plan.ASSUMPTIONS["*"]), "wall_s": round(time.time() - t0, 2), "violations": len(out.viol)},
                  f, indent=1, default=str)
    for n in out.notes:
        print("  " + n)
    print("%s: %s (%d states, %d traces, %.1fs)" % (prop, {0: "held", 1: "VIOLATED"}.get(code, "ERROR"), out.states, out.traces, time.time() - t0))
    return code

if __name__ == "__main__":
    sys.exit(main())
