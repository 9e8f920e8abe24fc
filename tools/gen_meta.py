#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from tools/props.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import PROPS, HOOKS, NOT_APPLICABLE
root = os.path.dirname(here)
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS:
        d = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        assert len(d["title"]) <= 80, (d["id"], len(d["title"]))
        f.write(json.dumps(d) + "\n")
m = {
    "version": 1,
    "setup_cmd": "bash /verif/setup.sh",
    "hooks": HOOKS,
    "checks": [
        {
            "property": p["id"],
            "quick_cmd": f"bash /verif/check.sh {p['id']} quick",
            "thorough_cmd": f"bash /verif/check.sh {p['id']} thorough",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": p["technique"],
            "level": p.get("level", "model_checking"),
            "level_note": p["level_note"],
        }
        for p in PROPS if p.get("claimed", True)
    ],
    "not_applicable": NOT_APPLICABLE,
}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(PROPS), "properties", len(m["checks"]), "checks")
