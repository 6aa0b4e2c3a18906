#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and the worlds that exist."""
import json, re, os, glob
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(here + "/properties.jsonl")]
have = set()
for f in glob.glob(here + "/sim/props_*.cpp"):
    have |= set(re.findall(r'\{"(P\d\d)", gen', open(f).read()))
NA = {"P25": "pure function of its arguments: no scheduling, time, I/O or fault for a simulation to vary"}
PYNOTE = "The real bindings and wrappers run in an embedded interpreter; preemption and faults happen only inside the library code they call. "
NOTE = {}
DEF = ("Seeded sampling of call sequences, interleavings and faults, not exhaustive. Real library code rebuilt from the working tree; "
       "assumes the simulated kernel (POSIX shared memory, semaphores, clocks, process death) behaves like Linux and memory is sequentially consistent.")
checks = []
for i in ids:
    if i in have:
        checks.append({"property": i, "quick_cmd": f"./check {i} quick", "thorough_cmd": f"./check {i} thorough", "evidence_file": f"evidence/{i}.json",
                       "technique": "deterministic simulation with fault injection: seeded search over schedules and faults", "level": "exploration", "level_note": NOTE.get(i, (PYNOTE if i in ("P23", "P24", "P26", "P27") else "") + ("ROS 1, ROS 2 and their messages are stand-ins. " if i == "P27" else "") + DEF)})
na = [{"property": i, "reason": NA.get(i, "check not built yet")} for i in ids if i not in have]
json.dump({"version": 1, "setup_cmd": "./sim/build.sh .build/setup", "hooks": {"guard": "none", "enable": "no hooks: every seam is a link-time symbol or compiler instrumentation", "source_commits": []}, "checks": checks, "not_applicable": na}, open(here + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", "not claimed:", [x["property"] for x in na])
