#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from meta/props.py (single source)."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import PROPS, NA
out = []; checks = []; na = []
for p in PROPS:
    assert len(p["title"]) <= 80, p["id"]
    d = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
    out.append(d)
    if "check" in p:
        c = p["check"]
        checks.append({"property": p["id"], "quick_cmd": "./check " + p["id"], "thorough_cmd": "./check " + p["id"],
                       "technique": c["technique"], "level": c.get("level", "other"), "level_note": c["note"]})
    else: na.append({"property": p["id"], "reason": p["na"]})
open(os.path.join(VERIF, "properties.jsonl"), "w").write("".join(json.dumps(d) + "\n" for d in out))
m = {"version": 1, "setup_cmd": "python3 vsa/setup.py", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
