#!/usr/bin/env python3
# Writes MANIFEST.json from the list of claimed properties below.
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
CLAIMED = json.load(open(f"{V}/tools/claimed.json"))
REASONS = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMED:
        c = CLAIMED[i]
        checks.append({"property": i, "quick_cmd": f"./run.sh {i} quick", "thorough_cmd": f"./run.sh {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": c["technique"], "level": c.get("level", "exploration"), "level_note": c["note"]})
    else:
        na.append({"property": i, "reason": REASONS.get(i, "No check is built yet.")})
m = {"version": 1, "setup_cmd": "./build.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo are needed: the checks use the public interface, files and streams only."}
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json"))) if os.path.exists("/root/.vp/MANIFEST.schema.json") else None
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
