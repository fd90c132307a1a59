#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py and the registered rules."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path[:0] = [HERE, ROOT]
import props
from speyver import rules

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in props.P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                        **({"observe_at": [p["observe"]]} if p["observe"] else {})}}) + "\n")

TECH = getattr(props, "TECH", {})
NOTE = getattr(props, "NOTE", {})
checks, na = [], []
for p in props.P:
    i = p["id"]
    if i in rules.INFO:
        checks.append({"property": i,
            "quick_cmd": f"python3 -m speyver {i}", "thorough_cmd": f"python3 -m speyver {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": TECH.get(i, "static value-flow analysis over the syntax tree: symbolic value numbering of each path, compared with required-behaviour tables"),
            "level": "other",
            "level_note": NOTE.get(i, rules.INFO[i]["explain"])})
    else:
        na.append({"property": i, "reason": props.NA.get(i, "no sound static argument built") if hasattr(props, "NA") else "check under construction"})
m = {"version": 1, "setup_cmd": "python3 -m compileall -q speyver", "checks": checks, "not_applicable": na,
     "notes": "Every check parses /repo/src/spey on each run; nothing of the repository is imported or executed. See DESIGN.md."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
