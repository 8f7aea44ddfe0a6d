#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the harness modules present in props/."""
import json, pathlib, sys
root = pathlib.Path(__file__).resolve().parent.parent
props = [json.loads(l) for l in open(root / "properties.jsonl")]
LEVELS = json.load(open(root / "tools" / "levels.json"))
NA = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in LEVELS and (root / "props" / (i.lower() + ".py")).exists():
        lv, note, tech = LEVELS[i]
        checks.append({"property": i, "quick_cmd": f"./run.sh {i}", "thorough_cmd": f"./run.sh {i} --tier thorough", "technique": tech, "level": lv, "level_note": note})
    else:
        na.append({"property": i, "reason": NA.get(i, "no contract harness built yet")})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
     "notes": "The engine (pv/) executes the real functions of /repo symbolically under contracts in props/, discharging obligations with a rational normal form, z3 and cvc5; see DESIGN.md."}
json.dump(m, open(root / "MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
