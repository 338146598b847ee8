#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from meta.py."""
import json
import os
from meta import PROPERTIES

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

manifest = {
    "version": 1,
    "setup_cmd": "python3 tools/build.py",
    "checks": [
        {
            "property": id,
            "quick_cmd": f"python3 run.py {id} --tier quick",
            "thorough_cmd": f"python3 run.py {id} --tier thorough",
            "evidence_file": f"evidence/{id}.json",
            "technique": m["technique"],
            "level": m["level"],
            "level_note": m["level_note"],
        }
        for id, m in PROPERTIES.items() if m["ready"]
    ],
    "not_applicable": [
        {"property": id, "reason": m.get("reason", "the check is still being built")}
        for id, m in PROPERTIES.items() if not m["ready"]
    ],
    "notes": "All checks run the real code; no hooks in /repo are needed. See DESIGN.md.",
}

with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1, ensure_ascii=False)
    f.write("\n")
print(len(manifest["checks"]), "checks,", len(manifest["not_applicable"]), "not claimed")
