#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks.py and properties.jsonl."""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from checks import CHECKS, NOT_APPLICABLE   # noqa: E402
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 tools/run.py setup", "checks": [], "not_applicable": []}
for i in ids:
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append({
            "property": i,
            "quick_cmd": "python3 tools/run.py %s --tier quick" % i,
            "thorough_cmd": "python3 tools/run.py %s --tier thorough" % i,
            "technique": c.get("technique") or (
                "property-based testing: generated cases (choice sequences, shrunk by sequence reduction) against "
                "an exact model of the accumulators and metamorphic relations" if c["kind"] == "cc" else
                "property-based testing: Hypothesis-generated cases against a reference model and round-trips"),
            "level": "exploration",
            "level_note": c.get("note") or c["rule"],
        })
    else:
        m["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE.get(i, "check not built yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
