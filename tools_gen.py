#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from sa/props.py."""
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from sa import props  # noqa: E402

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in props.PROPS + props.DECLINED:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"].strip(),
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}) + "\n")
checks = []
for p in props.PROPS:
    if p["ready"]:
        checks.append({
            "property": p["id"], "quick_cmd": "python3 check.py %s" % p["id"], "thorough_cmd": "python3 check.py %s --thorough" % p["id"],
            "technique": p.get("technique") or props.technique(p), "level": "other", "level_note": p.get("note") or props.note(p)})
m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": checks,
     "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in props.DECLINED] +
                       [{"property": p["id"], "reason": "the analysis for this property is not built yet"} for p in props.PROPS if not p["ready"]],
     "notes": "No hooks: the analysis reads the compiler's intermediate representation of the unmodified crate. See DESIGN.md."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
