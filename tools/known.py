"""Record an open finding: tools/known.py KEY REPLAYFILE 'what fails' (run by hand only)."""
import json
import shutil
import sys
from pathlib import Path
R = Path(__file__).resolve().parents[1]
key, rep, what = sys.argv[1:4]
d = json.loads(Path(rep).read_text())
(R / "known").mkdir(exist_ok=True)
keep = {k: d[k] for k in ("property", "harness", "case_index", "case", "label", "detail", "values") if k in d}
(R / "known" / f"{key}.json").write_text(json.dumps(keep, indent=1) + "\n")
f = R / "KNOWN_FINDINGS.txt"
s = f.read_text() if f.exists() else ""
f.write_text(s + f"open: property={d['property']} key={key} {what}\n")
