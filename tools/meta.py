#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables in meta_table.py."""
import json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from meta_table import PROPS, HOOKS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = ("deterministic simulation with fault injection: the VM runs as fibers under a seeded scheduler over a simulated "
     "libc/pthread layer; ")

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["quant"]},
             "why_tests_cant": p["why"],
             "anchors": {"files": p["files"],
                         "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}
        f.write(json.dumps(d) + "\n")

m = {"version": 1,
     "setup_cmd": "python3 sim/build.py interp jit",
     "hooks": {"guard": "AVIAN_SIMULATION",
               "enable": "sim/build.py compiles /repo's sources with -DAVIAN_SIMULATION and -DVM_STRESS",
               "source_commits": HOOKS},
     "checks": [], "not_applicable": []}
for p in PROPS:
    if p.get("na"):
        m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
        continue
    m["checks"].append({
        "property": p["id"],
        "quick_cmd": "python3 sim/check.py %s" % p["id"],
        "thorough_cmd": "python3 sim/check.py %s --tier thorough" % p["id"],
        "technique": T + p["technique"],
        "level": "exploration",
        "level_note": p["note"]})
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
