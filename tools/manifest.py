#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import checks

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
NA = checks.NOT_APPLICABLE
m = {
    "version": 1,
    "setup_cmd": "bin/setup",
    "checks": [
        {
            "property": p["id"],
            "quick_cmd": f"bin/check {p['id']} quick",
            "thorough_cmd": f"bin/check {p['id']} thorough",
            "technique": "TLA+ specification; TLC-generated inputs replayed into the real code, recorded sessions validated by TLC; TLC model checking of the session machine",
            "level": "model_checking",
            "level_note": checks.CHECKS[p["id"]].get("note", checks.NOTE),
        }
        for p in props if p["id"] in checks.CHECKS
    ],
    "not_applicable": [{"property": p["id"], "reason": NA.get(p["id"], "no check yet")} for p in props if p["id"] not in checks.CHECKS],
    "notes": "See DESIGN.md. bin/check ID [quick|thorough]; known-findings.txt lists recorded and repaired defects.",
}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
