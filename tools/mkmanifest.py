#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and checks.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS, NOT_APPLICABLE
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
m = {
    "version": 1,
    "setup_cmd": "./check setup",
    "checks": [],
    "not_applicable": [],
    "notes": "No hooks in /repo are needed: the checks use the existing seams (symbols of the C library and the C++ runtime, compiler instrumentation, functions handed to the library). See DESIGN.md.",
}
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append({
            "property": i, "quick_cmd": "./check %s quick" % i, "thorough_cmd": "./check %s thorough" % i,
            "technique": "deterministic simulation with fault injection", "level": c["level"],
            "level_note": c["note"], "evidence_file": "evidence/%s.json" % i})
    else:
        m["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE[i]})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
