#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks, na = [], []
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS:
        for a in p["files"] + [m["where"] for m in p["mech"]]:
            assert os.path.exists(os.path.join("/repo", a)), (p["id"], a)
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": p["mech"], "observe_at": p["observe"], "hook_needed": None}}) + "\n")
        if "na" in p:
            na.append({"property": p["id"], "reason": p["na"]})
        else:
            checks.append({"property": p["id"], "quick_cmd": f"./check.sh {p['id']} quick", "thorough_cmd": f"./check.sh {p['id']} thorough",
                "technique": p["tech"], "level": p.get("level", "exploration"), "level_note": p["note"]})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "Runtime monitoring only; no hooks in /repo. The monitors build against /repo's working tree. known-findings.txt lists repaired defects."}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
