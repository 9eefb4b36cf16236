#!/usr/bin/env python3
"""Generates DESIGN.md from doc/design_head.md, properties.jsonl, lib/specs.py and seeded/."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
from specs import SPECS
COST = json.load(open(os.path.join(V, "doc", "cost.json")))
MISSED = json.load(open(os.path.join(V, "doc", "missed.json")))
out = open(os.path.join(V, "doc", "design_head.md")).read()
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l); i = p["id"]; s = SPECS[i]
    out += "### %s %s\n\n" % (i, p["title"])
    out += "* Decided by: %s; harness `harness/%s`; %s.\n" % (s.get("technique", "online oracle over seeded workloads"), s["src"], ", ".join("%s %d quick / %d thorough" % r for r in s["runs"]))
    out += "* Workload and oracle: %s.\n" % s["rule"]
    out += "* Must have been observed: %s.\n" % ", ".join("`%s`" % r for r in s["require"][:14]) .replace("`, `", "`, `") + ("" if len(s["require"]) <= 14 else "  (and %d more events)\n" % (len(s["require"]) - 14))
    if s.get("assumptions"): out += "* Bounds and assumptions: %s.\n" % "; ".join(s["assumptions"])
    out += "* Beyond the tests: %s\n" % p["why_tests_cant"]
    out += "* Cost: %s\n\n" % COST.get(i, "")
out += "## 6. Which check catches which planted change\n\n| change | property | caught by its check | needs |\n|---|---|---|---|\n"
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    f = os.path.join(V, "seeded", d, "meta.json")
    if os.path.exists(f):
        m = json.load(open(f))
        out += "| %s | %s | %s | %s |\n" % (d, m["property"], MISSED.get(d, "yes"), m["needs"].replace("|", "/"))
open(os.path.join(V, "DESIGN.md"), "w").write(out)
