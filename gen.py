#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py (python3 gen.py)."""
import json
import os

import props

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in props.PROPS:
        d = {k: p[k] for k in ("id", "title", "statement", "quantifier",
                               "why_tests_cant", "anchors")}
        f.write(json.dumps(d) + "\n")
man = {
    "version": 1,
    "setup_cmd": "python3-vt setup_check.py",
    "checks": [
        {"property": p["id"], "quick_cmd": "python3-vt check.py " + p["id"],
         "thorough_cmd": "python3-vt check.py " + p["id"],
         "technique": p["technique"], "level": "other", "level_note": p["note"]}
        for p in props.PROPS if "technique" in p],
    "not_applicable": [{"property": p["id"], "reason": p["na"]}
                       for p in props.PROPS if "na" in p],
    "notes": "Static analysis only; see DESIGN.md. Known findings: known_findings.json.",
}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
