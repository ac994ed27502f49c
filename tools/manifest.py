#!/usr/bin/env python3
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
from checks import CHECKS
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
cur = json.load(open(os.path.join(R, "MANIFEST.json")))
m = {"version": 1, "setup_cmd": "python3 check.py setup", "checks": [], "not_applicable": []}
if os.path.exists(os.path.join(R, "tools/hooks.json")):
    m["hooks"] = json.load(open(os.path.join(R, "tools/hooks.json")))
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": f"python3 check.py {i} quick", "thorough_cmd": f"python3 check.py {i} thorough",
                            "technique": c["technique"], "level": c.get("level", "model_checking"), "level_note": c["note"] + " Bounds: " + c["bounds"]})
    else:
        m["not_applicable"].append({"property": i, "reason": "check not built yet"})
m["notes"] = "check.py builds each harness from /repo's working tree and explores it; see DESIGN.md."
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed,", len(m["not_applicable"]), "not")
