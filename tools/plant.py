#!/usr/bin/env python3
"""tools/plant.py SPEC.py [--tests] [--nocheck] : build /verif/seeded/<id>/ from a spec file (id, prop, edits=[(file, old, new)], demo, needs, breaks),
confirm in a scratch copy of /repo that the demonstration fails with the change and passes without it, that the change
compiles, (--tests) that the stable tests still pass, and report whether the property's check catches it."""
import json, os, pathlib, shutil, subprocess, sys, tempfile
V = pathlib.Path(__file__).resolve().parent.parent
spec = {}
exec(open(sys.argv[1]).read(), spec)
D = V / "seeded" / spec["id"]
D.mkdir(parents=True, exist_ok=True)
tmp = pathlib.Path(tempfile.mkdtemp(prefix="plant.", dir="/tmp"))
try:
    shutil.copytree("/repo", tmp / "repo", symlinks=True)
    R = tmp / "repo"
    subprocess.run(["git", "checkout", "-q", "--", "."], cwd=R, check=True)
    env = {**os.environ, "PYTHONPATH": str(R / "lib"), "MPLBACKEND": "Agg", "QT_QPA_PLATFORM": "offscreen", "QT_API": "pyqt6",
           "PYTEST_QT_API": "pyqt6", "PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1", "SIM": "ghdl", "PATH": "/opt/venv/bin:" + os.environ["PATH"]}
    (D / "demo.py").write_text(spec["demo"].lstrip())
    (D / "demo.sh").write_text('#!/bin/bash\n# run with cwd /repo; exit 0 when the property holds\nexport PYTHONPATH="$PWD/lib" MPLBACKEND=Agg QT_QPA_PLATFORM=offscreen QT_API=pyqt6 PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    (D / "meta.json").write_text(json.dumps({"property": spec["prop"], "needs": spec["needs"], "what_it_breaks": spec["breaks"]}, indent=1) + "\n")
    run = lambda: subprocess.run(["bash", str(D / "demo.sh")], cwd=R, env=env, capture_output=True, text=True, timeout=280)
    a = run()
    for f, old, new in spec["edits"]:
        s = (R / f).read_text()
        assert s.count(old) == 1, (f, s.count(old), old)
        (R / f).write_text(s.replace(old, new))
        compile(s.replace(old, new), f, "exec")
    patch = subprocess.run(["git", "diff", "-U3"], cwd=R, capture_output=True, text=True).stdout
    (D / "patch.diff").write_text(patch)
    b = run()
    print(spec["id"], "demo unchanged", a.returncode, "| with change", b.returncode)
    if a.returncode: print(a.stdout[-600:], a.stderr[-1500:])
    if not b.returncode: print("DEMO DOES NOT FAIL", b.stdout[-400:])
    # lines must be original
    for f, old, _ in spec["edits"]:
        base = subprocess.run(["git", "show", "9f077d8:" + f], cwd=R, capture_output=True, text=True).stdout
        for l in old.splitlines():
            if l.strip() and l not in base.splitlines() and l.strip() not in base: print("  NOT ORIGINAL LINE:", l)
    if "--nocheck" not in sys.argv:
        c = subprocess.run(["./run.sh", spec["prop"]], cwd=V, env={**os.environ, "PV_REPO": str(R)}, capture_output=True, text=True)
        print("  check exit", c.returncode, [l[:200] for l in c.stdout.splitlines() if l.startswith("VIOLATION")][:2], c.stdout.splitlines()[-1][:150] if c.stdout else c.stderr[-300:])
    if "--tests" in sys.argv:
        t = subprocess.run("/opt/venv/bin/python -m pytest -q -p no:cacheprovider -n 6 --no-xvfb --timeout=300 test 2>&1 | tail -40", shell=True, cwd=R, env=env, capture_output=True, text=True)
        fails = sorted(l.split(" ")[1] for l in t.stdout.splitlines() if l.startswith(("FAILED", "ERROR")))
        known = pathlib.Path("/tmp/s/basefail.txt").read_text().split("\n") if pathlib.Path("/tmp/s/basefail.txt").exists() else None
        extra = [f for f in fails if known is None or f not in known]
        print("  tests:", t.stdout.splitlines()[-1], "NEW FAILURES:" if extra else "ok", extra[:5])
finally:
    shutil.rmtree(tmp)
