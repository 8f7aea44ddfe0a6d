#!/usr/bin/env python3
"""Writes CONTRACTS.md: every contract harness, its kind, bound and the functions of /repo it is a contract of.  Run through tools/contracts.sh."""
import json, pathlib, subprocess, sys
root = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(root))
if len(sys.argv) > 1:
    from pv import runner
    for h in runner.load(sys.argv[1]):
        n, m = len(list(h.cases)), len(list(h.more_cases))
        t = ", ".join(f"`{x.split(':')[1]}`" for x in h.targets)
        print(f"| {h.name} | {h.kind} | {n}{f' (+{m})' if m else ''} | {h.bound or 'none'} | {t} |")
    sys.exit()
out = ["# Contracts", "", "Generated by `tools/contracts.sh`. Kind: `proof` no bound; `shape` proof for each enumerated shape; `bounded` generated concrete inputs. "
       "Cases: shapes or variants explored on the quick tier (+ those of the thorough tier).", ""]
for line in open(root / "properties.jsonl"):
    d = json.loads(line)
    r = subprocess.run([sys.executable, __file__, d["id"]], capture_output=True, text=True)
    if r.returncode: sys.exit(r.stderr)
    out += [f"## {d['id']} {d['title']}", "", "| contract | kind | cases | bound | functions under contract |", "|---|---|---|---|---|", r.stdout]
(root / "CONTRACTS.md").write_text("\n".join(out))
