#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks that exist."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
NOTES = json.load(open(V + "/tools/notes.json"))
checks, na = [], []
for i in ids:
    if os.path.exists(V + "/checks/%s.py" % i.lower()):
        n = NOTES[i]
        checks.append({"property": i, "quick_cmd": "python3 run.py " + i,
                       "thorough_cmd": "python3 run.py %s --tier thorough" % i,
                       "technique": n["technique"], "level": n.get("level", "model_checking"), "level_note": n["note"]})
    else:
        na.append({"property": i, "reason": NOTES.get(i, {}).get("na", "no check built yet")})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "Specifications in specs/ (TLA+, TLC); drivers in harness/; one check per property in checks/."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
