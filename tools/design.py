#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import json, pathlib
root = pathlib.Path(__file__).resolve().parent.parent
d = root / "DESIGN.md"
head = d.read_text().split("## Planted bugs")[0]
rows = ["## Planted bugs", "", "Each was written from the property and the code, confirmed with its demonstration in a scratch copy, and then run against the check of its property", "(`tools/plant.py`). Patches whose lines were since changed by a fix were removed.", "",
        "| planted bug | property | what it breaks | caught by |", "|---|---|---|---|"]
for m in sorted((root / "seeded").glob("*/meta.json")):
    x = json.loads(m.read_text())
    rows.append(f"| {m.parent.name} | {x['property']} | {x['what_it_breaks']} (needs {x['needs']}) | {x.get('caught_by', x['property'] + ' check')} |")
d.write_text(head + "\n".join(rows) + "\n")
