#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of implemented checks."""
import json
import os
V = os.path.dirname(os.path.abspath(__file__))
NOTE = ("TLA+ specification model checked with TLC; conformance by enumerating schedules of the real code under a "
        "deterministic runtime and validating every sampled distinct trace with TLC. Exhaustive only within the stated "
        "programs, preemption bounds and trace sample.")
CLAIMED = {
    "C13": "TLA+ (Pool.tla): TLC model checking + trace validation of explored schedules",
    "C14": "TLA+ (Pool.tla): TLC model checking + trace validation of explored schedules",
    "C15": "TLA+ (Latch.tla): TLC model checking + trace validation of explored schedules",
}
CLAIMED["C20"] = "TLA+ (UFunc.tla): TLC model checking + trace validation of recorded histories of the real objects"
for _p in "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C16 C17 C18 C19 C21 C22".split():
    CLAIMED[_p] = "TLA+ (PcFuture.tla): TLC model checking + trace validation of explored schedules"
props = [json.loads(x) for x in open(os.path.join(V, "properties.jsonl")) if x.strip()]
m = {"version": 1, "setup_cmd": "python3 checks/setup.py",
     "checks": [{"property": p["id"], "quick_cmd": "python3 checks/%s.py" % p["id"].lower(),
                 "thorough_cmd": "python3 checks/%s.py --thorough" % p["id"].lower(),
                 "technique": CLAIMED[p["id"]], "level": "model_checking", "level_note": NOTE}
                for p in props if p["id"] in CLAIMED],
     "not_applicable": [{"property": p["id"], "reason": "check not built yet"} for p in props if p["id"] not in CLAIMED]}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
