#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the texts in tools/props.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import props                                            # noqa: E402

VERIF = os.path.dirname(HERE)
with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
    for p in props.PROPERTIES:
        q = {k: v for k, v in p.items() if k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        assert len(q["title"]) <= 80, q["id"]
        f.write(json.dumps(q) + "\n")
man = {
    "version": 1,
    "setup_cmd": "python3 engine/setup.py",
    "checks": [],
    "not_applicable": [],
    "notes": "Static analysis only: engine/exporter.cpp (libTooling) exports the resolved program of every translation "
             "unit under src; the rules in engine/rules decide each property on that export. No hooks in /repo.",
}
for p in props.PROPERTIES:
    if "na" in p:
        man["not_applicable"].append({"property": p["id"], "reason": p["na"]})
    else:
        man["checks"].append({
            "property": p["id"],
            "quick_cmd": "python3 engine/check.py %s" % p["id"],
            "thorough_cmd": "python3 engine/check.py %s --thorough" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": p["technique"],
            "level": "other",
            "level_note": p["level_note"],
        })
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
