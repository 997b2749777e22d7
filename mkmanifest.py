#!/usr/bin/env python3
"""Write MANIFEST.json from checks.py and properties.jsonl."""
import json, os
from checks import CHECKS
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
NA = {
    "N01": "Real execution time is not part of a simulated execution: under the simulator a computation takes no time, so timing leakage cannot be observed. It needs constant-time analysis or hardware measurement.",
    "N02": "Pure functions of a string: no concurrency, time, I/O or second party for the property to depend on, so there is no schedule or fault to search.",
}
TECH = "deterministic simulation with fault injection: seeded search over schedules and faults of the real programs on a simulated kernel"
NOTE = "Seeded sample of simulated executions of the unmodified program sources in one process (see DESIGN.md); trusts the kernel model, the test parties and the oracle. A clean run is evidence over the executions explored, not a proof."
checks = []
for p in props:
    i = p["id"]
    if i in NA or i not in CHECKS: continue
    checks.append({"property": i, "quick_cmd": "python3 run.py check %s quick" % i, "thorough_cmd": "python3 run.py check %s thorough" % i, "evidence_file": "evidence/%s.json" % i,
                   "technique": CHECKS[i].get("technique", TECH), "level": "exploration", "level_note": CHECKS[i].get("note", NOTE)})
na = [{"property": p["id"], "reason": NA.get(p["id"], "The check for this property is not built yet.")} for p in props if p["id"] in NA or p["id"] not in CHECKS]
m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": checks, "not_applicable": na,
     "hooks": {"guard": "SPIPED_SIM", "enable": "build.py compiles /repo's library sources with -DSPIPED_SIM; the variable spiped_sim_first_pnum is defined in sim/ref.cpp and set from the plan", "source_commits": ["546e712"]},
     "notes": "Nearly all seams are supplied by compiling /repo's sources against the simulator's libc entry points (symbol renaming after compilation), see DESIGN.md; the one guarded hook sets the number of the first packet of a session."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1); open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
