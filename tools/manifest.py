#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property that has a driver in mc/src/bin."""
import json, os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(ROOT, "tools", "notes.json")))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(ROOT, "mc/src/bin", i.lower() + ".rs")):
        tech, note = NOTES.get(i, ["bounded exhaustive exploration of the compiled crate against a reference model", ""])
        checks.append({
            "property": i,
            "quick_cmd": "./run.sh %s quick" % i,
            "thorough_cmd": "./run.sh %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": tech,
            "level": "model_checking",
            "level_note": (note + " " if note else "") + NOTES["common"],
        })
    else:
        na.append({"property": i, "reason": NOTES.get(i + "-na", "check not built yet")})
m = {
    "version": 1,
    "setup_cmd": "./run.sh build",
    "checks": checks,
    "not_applicable": na,
    "notes": NOTES["notes"],
}
open(os.path.join(ROOT, "MANIFEST.json"), "w").write(json.dumps(m, indent=1, ensure_ascii=False) + "\n")
