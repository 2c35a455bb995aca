#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py (the single source of both)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
from props import PROPS, NA, SETUP_NOTES
PROPS.sort(key=lambda p: p["id"])
root = os.path.join(os.path.dirname(__file__), "..")
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS + NA:
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
        assert len(p["title"]) <= 80, p["title"]
man = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": [
        {
            "property": p["id"],
            "quick_cmd": "./check.sh %s" % p["id"],
            "thorough_cmd": "./check.sh %s" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": "deterministic simulation with fault injection: " + p["technique"],
            "level": "exploration",
            "level_note": p["level_note"],
        }
        for p in PROPS
    ],
    "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA],
    "notes": SETUP_NOTES,
}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
