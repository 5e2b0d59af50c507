#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and check.py's engine table."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
import check
NA = {
    "C24": "Decided by the compiler from types alone: there is no execution to simulate.",
}
NOTE = {
    "simsig": "Seeded search over client operations, nested user code, injected faults and thread schedules of the real signals.hpp in one process; "
              "every completed run is judged by an oracle over its recorded history. A sample, not a proof: bounds are 1-3 client threads (4 in thorough), "
              "about 30 operations, 2 signals. Trusts the simulator's locks/allocator/atomics (sequentially consistent values) and clang's instrumentation.",
    "simslot": "Seeded search over operations on slot objects, injected copy/move/compare/allocation failures and schedules of threads sharing slots; "
               "the real slot code is compared step by step with a value model. A sample, not a proof.",
    "simcow": "Seeded search over operations and schedules of threads holding their own copy-on-write pointers to shared values, with failing copies and "
              "allocations, compared with a value model and watched by a happens-before race detector. A sample, not a proof.",
    "simopt": "Seeded search over operation sequences on optional objects with an exception at any constructor/assignment/move/comparison of the value type, compared "
              "step by step with a value model that counts every construction and destruction. A sample, not a proof.",
}
TECH = {
    "simsig": "deterministic simulation: seeded schedule and fault search, history oracle",
    "simslot": "deterministic simulation: seeded fault and schedule search, value model",
    "simcow": "deterministic simulation: seeded schedule and fault search, value model, race detection",
    "simopt": "deterministic simulation: seeded fault search over histories, value model",
}
checks, na = [], []
for line in open(here + "/properties.jsonl"):
    i = json.loads(line)["id"]
    if i in check.ENGINE_OF:
        e = check.ENGINE_OF[i]
        checks.append(dict(property=i, quick_cmd=f"python3 check.py {i}", thorough_cmd=f"python3 check.py {i} --thorough",
                           evidence_file=f"evidence/{i}.json", technique=TECH[e], level="exploration", level_note=NOTE[e]))
    else:
        na.append(dict(property=i, reason=NA.get(i, "not built yet")))
doc = dict(version=1, setup_cmd="python3 check.py setup", checks=checks, not_applicable=na,
           notes="No hooks in /repo: the library's own template parameters, operator new/delete, pthread locks and compiler instrumentation are the seams. "
                 "Replay a recorded violation with: python3 check.py replay evidence/<ID>.replay")
json.dump(doc, open(here + "/MANIFEST.json", "w"), indent=1)
open(here + "/MANIFEST.json", "a").write("\n")
