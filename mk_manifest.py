#!/usr/bin/env python3
"""Writes MANIFEST.json from worlds.py and properties.jsonl."""
import json
from worlds import WORLDS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open("properties.jsonl")]
checks = []
for i in ids:
    if i in WORLDS:
        w = WORLDS[i]
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py %s" % i,
            "thorough_cmd": "python3 check.py %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": w.get("technique", "deterministic simulation with fault injection, seeded search"),
            "level": "exploration",
            "level_note": w["note"],
        })
na = [{"property": i, "reason": NOT_APPLICABLE.get(i, "no check yet")} for i in ids if i not in WORLDS]
json.dump({"version": 1, "setup_cmd": "python3 check.py build", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the seams are operator new/delete, the archive's byte view parameter, user serialize "
                    "callbacks, RPC handlers and the bytes handed to input archives. Genuine defects found and repaired are "
                    "listed in known_findings.txt."}, open("MANIFEST.json", "w"), indent=1)
