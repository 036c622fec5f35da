#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the plan."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lab"))
import plan
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
PROTO = "TLA+/TLC: recorded runs of the real program validated against DPPIR.tla; the same spec model checked over all schedules"
COMP = "TLA+/TLC: %s model checked; records of the real code judged by the same operators"
T = {"C08": COMP % "Onion.tla", "C11": COMP % "Framing.tla (read/chunk schedules from TLC replayed)", "C12": COMP % "Sharing.tla", "C13": COMP % "Sharing.tla",
     "C14": COMP % "Shuffle.tla", "C15": COMP % "Shuffle.tla (frequencies over seeds)", "C16": "TLA+/TLC: Noise.tla judges recorded noise amounts of the real code",
     "C17": COMP % "Noise.tla", "C18": COMP % "Config.tla", "C19": "TLA+/TLC: histories generated from Orchestrator.tla replayed into the real handlers",
     "C20": "TLA+/TLC: histories generated from Orchestrator.tla replayed into the real handlers", "C22": "TLA+/TLC: invocations enumerated from Cli.tla replayed into the real program",
     "C23": "TLA+/TLC: histories generated from Daemon.tla replayed into the real daemons, their moves judged by the same operators",
     "C24": "TLA+/TLC: descriptions and results generated from Plot.tla replayed into the real plotting script, its points judged by the same operators",
     "C25": "TLA+/TLC: Timing.tla model checked over all schedules and clocks (MCTiming); times reported by the real program under a virtual clock judged by the same operators",
     "C26": "TLA+/TLC: Baseline.tla judges the runners modelled in MCBaseline (all schedules) and the real runners, with scenarios from MCBaselineSim"}
NOTE = ("Design model: exhaustive over all schedules within small constants. Implementation: every recorded run is validated event by event; "
        "runs are sampled over topologies, loads, schedules and faults, so the code itself is covered by exploration, not proof. "
        "Trusts libsodium, the kernel's loopback TCP, and the lab's decoding of messages.")
NC = ("Specification model checked exhaustively within small constants; the real code is exercised on enumerated small and random larger inputs and each "
      "record is judged by TLC. Bounded sizes; statistical statements at 7 standard deviations.")
checks, na = [], []
for p in props:
    i = p["id"]
    if i in plan.PARTS:
        checks.append({"property": i, "quick_cmd": "python3 lab/check.py %s quick" % i, "thorough_cmd": "python3 lab/check.py %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": T.get(i, PROTO), "level": plan.level(i), "level_note": NC if i in T else NOTE})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "python3 lab/build.py std small tiny sample",
     "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the checks build /repo's sources from /verif with their own flags and an interposed libc shim. Defects found and repaired: KNOWN_FINDINGS.txt."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
