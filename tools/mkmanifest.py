#!/usr/bin/env python3
"""Generates MANIFEST.json from lib/specs.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
from specs import SPECS
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
TECH = "runtime monitoring: %s"
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in SPECS:
        na.append({"property": i, "reason": "check not built yet"})
        continue
    s = SPECS[i]
    fl = [r[0] for r in s.get("runs", [])]
    inst = []
    if "asan" in fl: inst.append("AddressSanitizer+UBSan+libstdc++/Eigen assertions")
    if "tsan" in fl: inst.append("ThreadSanitizer under a chaos OpenMP/TBB scheduler")
    if "chaos" in fl: inst.append("randomised adversarial schedules")
    if "rel" in fl: inst.append("high-volume optimised runs")
    checks.append({"property": i, "quick_cmd": "python3 run.py " + i, "thorough_cmd": "python3 run.py " + i, "evidence_file": "evidence/%s.json" % i,
                   "technique": TECH % (s.get("technique", "online oracle over seeded workloads") + " (" + ", ".join(inst) + ")" if inst else s.get("technique", "")),
                   "level": "exploration",
                   "level_note": s.get("note", "Held on the executions explored (counts in the evidence file); the oracle judges every explored execution, nothing is claimed about inputs and schedules not generated. Trusted: compiler, sanitizers, Eigen, the harness oracle.")})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks are needed in /repo: harnesses observe through the public API, template parameters and the GOMP/TBB/TSan interfaces. Known and fixed findings: known_findings.txt. Replay a violation with: python3 run.py <id> --replay <path>."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not claimed")
