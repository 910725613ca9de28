#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from the catalogue, properties.jsonl and na.json."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, V)
from tools.catalog import PROPS, HARNESSES
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
na = dict(json.load(open(os.path.join(V, "tools/na.json"))))
m = {"version": 1, "setup_cmd": "python3 check.py props", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in PROPS:
        m["checks"].append({
            "property": i, "quick_cmd": "python3 check.py run %s" % i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py run %s" % i,
            "technique": "deterministic simulation with fault injection: seeded search over schedules, faults and operation histories",
            "level": "exploration", "level_note": PROPS[i].get("level_note") or "Holds on every explored seed: the real code runs single-stepped in one process under a seeded scheduler and a simulated kernel; nothing is claimed about plans not generated. " + PROPS[i].get("rule", "")})
    else:
        m["not_applicable"].append({"property": i, "reason": na.get(i, "Not claimed yet: its simulator is being built.")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
