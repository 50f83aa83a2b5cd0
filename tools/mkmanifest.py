#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from simconf.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from simconf import CONF
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
PURE = "a pure function of its arguments: no schedule, clock, I/O, randomness or allocation failure can change its answer, so there is nothing for a simulator to decide; its effect inside the clustering operations is covered by the claimed properties that use it"
na = {"P21": PURE, "P22": PURE, "P23": PURE}
checks = []
for p in props:
    i = p["id"]
    if i in CONF:
        checks.append({
            "property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "deterministic simulation with fault injection (seeded schedules, simulated threads/OpenMP/entropy/heap/clock/disk) against a reference model",
            "level": "exploration",
            "level_note": "Samples seeded runs of the real code under a simulator; " + CONF[i].get("note", "a clean batch is evidence for the sampled schedules, inputs and faults, not a proof") + ". Trusts g++'s -fsanitize=thread access callbacks, the simulator runtime in sim/, and the naive oracles in scn/."})
    elif i not in na:
        na[i] = "no check built yet"
m = {"version": 1, "setup_cmd": "python3 check.py --build",
     "hooks": {"guard": "none (no hooks in /repo were needed)", "enable": "nothing to enable: the seams are the compiler's access callbacks, the OpenMP runtime interface, operator new, std::random_device, the clocks and the file descriptors", "source_commits": []},
     "checks": checks, "not_applicable": [{"property": k, "reason": v} for k, v in sorted(na.items())],
     "notes": "check.py builds the scenarios of one property from /repo's working tree (parallel and sequential configuration), runs seeds on 8 workers, minimises and re-verifies a violation and writes the evidence."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(H, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks;", sorted(na))
