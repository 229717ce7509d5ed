#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys

here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import PROPS

root = os.path.dirname(here)
checks = []
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        assert os.path.exists(os.path.join(root, "mc", "checks", p["id"].lower() + ".py")), p["id"]
        for a in p["files"]:
            assert os.path.exists(os.path.join("/repo", a)), a
        rec = {
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "hook_needed": None},
        }
        if p["observe"]:
            rec["anchors"]["observe_at"] = p["observe"]
        f.write(json.dumps(rec) + "\n")
        checks.append({
            "property": p["id"], "quick_cmd": f"./check {p['id']}", "thorough_cmd": f"./check {p['id']} --tier thorough",
            "technique": "model checking: " + p["technique"], "level": p["level"], "level_note": p["note"],
        })
json.dump({"version": 1, "setup_cmd": "./check --selftest", "checks": checks, "not_applicable": []}, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
