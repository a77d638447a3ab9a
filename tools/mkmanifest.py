#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and plan.py"""
import json
import os
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from plan import PLAN, NOTE  # noqa: E402

props = [json.loads(x) for x in open(os.path.join(ROOT, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "checks": [{
        "property": p["id"],
        "quick_cmd": "VERIF_TIER=quick python3 check.py " + p["id"],
        "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": PLAN[p["id"]].get("technique", NOTE["technique"]),
        "level": "model_checking",
        "level_note": PLAN[p["id"]].get("note", "") + NOTE["level"],
    } for p in props if p["id"] in PLAN],
    "not_applicable": [],
    "notes": NOTE["notes"],
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
