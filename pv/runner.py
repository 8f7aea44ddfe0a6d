"""Check driver: runs every contract harness of one property and decides."""
from __future__ import annotations

import hashlib
import importlib
import inspect
import json
import multiprocessing as mp
import multiprocessing.connection as mpc
import os
import random
import re
import resource
import signal
import sys
import time
import traceback
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
VENV_Z3 = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
CASE_TIMEOUT = 60


def setup_path():
    if VENV_Z3 not in sys.path:
        sys.path.append(VENV_Z3)


def load(prop):
    setup_path()
    sys.path.insert(0, str(ROOT))
    from pv import hook, vc
    hook.import_real()
    importlib.import_module("props." + prop.lower())
    return [h for h in vc.HARNESSES if h.prop == prop]


# ------------------------------------------------------------ known findings
def known_lines():
    f = ROOT / "KNOWN_FINDINGS.txt"
    out = {}
    if f.exists():
        for line in f.read_text().splitlines():
            m = re.match(r"open: property=(\w+) key=(\S+) (.*)", line)
            if m:
                out[m.group(2)] = (m.group(1), m.group(3))
    return out


OPEN_KEYS = set()


def install_known(ignore=False):
    from pv import vc
    keys = set() if ignore else set(known_lines())

    def known(self, key, cond):
        if key in keys:
            if cond is True:
                raise vc.Known
            self.assume(self.not_(cond))
    vc.Base.known = known


# ------------------------------------------------------------------- workers
class _Timeout(BaseException):
    pass


def _alarm(*_):
    raise _Timeout


def w_symbolic(h, case, tier):
    from pv import vc
    return vc.explore(h, case, max_seconds=700 if tier == "thorough" else 240)


def w_concrete(h, case, n, seed, max_s):
    from pv import vc
    signal.signal(signal.SIGALRM, _alarm)
    t0 = time.time()
    ok = skip = 0
    labels = set()
    distinct = set()
    samples = []
    proved = 0
    for i in range(n):
        if time.time() - t0 > max_s:
            break
        rng = random.Random(f"{seed}/{h.name}/{case!r}/{i}")
        random.seed(i)
        signal.alarm(CASE_TIMEOUT)
        c = vc.Concrete(rng=rng)
        try:
            st, info, c = vc.run_concrete(h, case, rng=rng)
        except _Timeout:
            st, info = "fail", ("terminates", f"no result within {CASE_TIMEOUT} s")
            return {"ok": ok, "skip": skip, "fail": {"values": None, "index": i, "label": info[0], "detail": info[1]},
                    "labels": sorted(labels), "distinct": len(distinct), "samples": samples, "proved": proved}
        finally:
            signal.alarm(0)
        if st == "gone":
            return {"gone": info}
        if st == "skip":
            skip += 1
            continue
        if st == "fail":
            return {"ok": ok, "skip": skip, "fail": {"values": c.values, "index": i, "label": info[0], "detail": info[1]},
                    "labels": sorted(labels), "distinct": len(distinct), "samples": samples, "proved": proved}
        ok += 1
        proved += c.proved
        labels |= c.labels
        if c.proved:
            distinct.add(hashlib.md5(repr(sorted(c.values.items())).encode()).hexdigest())
        if len(samples) < 1 and c.values:
            samples.append({"harness": h.name, "case": repr(case)[:80], "inputs": dict(list(c.values.items())[:12])})
        if not c.values:
            break   # nothing is drawn: one run is exhaustive
    return {"ok": ok, "skip": skip, "fail": None, "labels": sorted(labels), "distinct": len(distinct),
            "samples": samples, "proved": proved}


def w_replay(h, case, values, index=None, seed=None):
    from pv import vc
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_TIMEOUT)
    try:
        if values is None:
            rng = random.Random(f"{seed}/{h.name}/{case!r}/{index}")
            random.seed(index)
            st, info, c = vc.run_concrete(h, case, rng=rng)
        else:
            random.seed(0)
            st, info, c = vc.run_concrete(h, case, values=values)
        return {"status": st, "info": info, "proved": c.proved}
    except _Timeout:
        return {"status": "fail", "info": ("terminates", f"no result within {CASE_TIMEOUT} s"), "proved": 0}
    finally:
        signal.alarm(0)


def _child(conn, fn, args):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (9 << 30, 9 << 30))
        sys.setrecursionlimit(20000)
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        if not os.environ.get("PV_DEBUG"):
            os.dup2(devnull, 2)
        r = fn(*args)
        conn.send(("ok", r))
    except BaseException as e:  # noqa: BLE001
        conn.send(("error", f"{type(e).__name__}: {e}\n{traceback.format_exc()[-3000:]}"))
    finally:
        conn.close()
        os._exit(0)


def run_tasks(tasks, jobs=8, deadline=None):
    """tasks: list of (key, fn, args, timeout).  Returns {key: ('ok', r) | ('error', msg)}."""
    ctxm = mp.get_context("fork")
    out = {}
    running = {}
    todo = list(tasks)[::-1]
    while todo or running:
        while todo and len(running) < jobs:
            key, fn, args, to = todo.pop()
            a, b = ctxm.Pipe(False)
            p = ctxm.Process(target=_child, args=(b, fn, args), daemon=True)
            p.start()
            b.close()
            end = time.time() + to
            running[a] = (key, p, end if deadline is None else min(end, max(deadline, time.time() + 1)))
        ready = mpc.wait(list(running), timeout=1.0)
        now = time.time()
        for c in list(running):
            key, p, end = running[c]
            if c in ready:
                try:
                    out[key] = c.recv()
                except EOFError:
                    out[key] = ("error", "worker died")
                p.join()
                c.close()
                del running[c]
            elif now > end:
                p.kill()
                p.join()
                c.close()
                out[key] = ("error", "timeout")
                del running[c]
    return out


# --------------------------------------------------------------------- source
def target_info(targets):
    """File, line and hash of each function under contract, from the current tree."""
    info = []
    for t in targets:
        mod, _, qual = t.partition(":")
        try:
            o = importlib.import_module(mod)
            for part in qual.split("."):
                o = inspect.getattr_static(o, part) if inspect.isclass(o) else getattr(o, part)
                if isinstance(o, (staticmethod, classmethod)):
                    o = o.__func__
            f = o.fget if isinstance(o, property) else o
            src, line = inspect.getsourcelines(f)
            info.append({"function": t, "line": line, "sha1": hashlib.sha1("".join(src).encode()).hexdigest()[:12]})
        except Exception as e:  # noqa: BLE001
            info.append({"function": t, "missing": str(e)[:80]})
    return info


def main(argv=None):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    t0 = time.time()
    prop = a.prop.upper()
    hs = load(prop)
    install_known()
    byname = {h.name: h for h in hs}
    if a.replay:
        d = json.loads(Path(a.replay).read_text())
        if d.get("harness") is None:
            print(json.dumps(d, indent=1))
            return 1
        h = byname[d["harness"]]
        r = w_replay(h, [*h.cases, *h.more_cases][d["case_index"]], d.get("values"), d.get("index"), d.get("seed"))
        print(json.dumps(r, indent=1, default=str))
        return 1 if r["status"] == "fail" else 0
    if a.only:
        hs = [h for h in hs if re.search(a.only, h.name)]
    if not hs:
        print("no harness", file=sys.stderr)
        return 3
    tier = a.tier
    if tier == "thorough":
        for h in hs:
            h.cases = [*h.cases, *h.more_cases]
    sym_to = 800 if tier == "thorough" else 300
    tasks = []
    for hi, h in enumerate(hs):
        for ci, case in enumerate(h.cases):
            if h.kind in ("proof", "shape"):
                tasks.append((("s", hi, ci), w_symbolic, (h, case, tier), sym_to))
    for hi, h in enumerate(hs):
        n = h.n_search_t if tier == "thorough" else h.n_search
        if h.kind != "bounded" and tier != "thorough":
            n = min(n, 60)
        for ci, case in enumerate(h.cases):
            shards = 1 if n < 40 else (8 if h.kind == "bounded" and len(h.cases) <= 4 else 1)
            for s in range(shards):
                tasks.append((("c", hi, ci, s), w_concrete,
                              (h, case, max(1, n // shards), f"{a.seed}.{s}", 600 if tier == "thorough" else 150), sym_to))
    res = run_tasks(tasks, a.jobs, t0 + (600 if tier == "quick" else 5000))
    violations = []     # dicts
    undecided = []      # (h, ci, reason)
    errors = []
    stats = {"obligations": 0, "discharged": 0, "paths": 0, "by": {}, "solver_s": 0.0, "branch_queries": 0}
    conc = {"evaluations": 0, "distinct": 0, "assertions": 0, "skipped": 0, "samples": []}
    perh = {h.name: {"kind": h.kind, "obligations": 0, "discharged": 0, "paths": 0, "bounded_runs": 0,
                     "cases": len(h.cases), **({"bound": h.bound} if h.bound else {})} for h in hs}
    replays = []
    absent = {}         # contracts on private helpers that no longer exist: nothing to hold them to
    for key, (st, r) in res.items():
        h = hs[key[1]]
        ci = key[2]
        ph = perh[h.name]
        if st == "error":
            if key[0] == "s":
                undecided.append((h, ci, "symbolic worker: " + str(r)))
            else:
                errors.append((h, ci, str(r)))
            continue
        if "gone" in r:
            absent.setdefault(h.name, r["gone"])
            continue
        if key[0] == "s":
            for k in ("obligations", "discharged", "paths", "branch_queries"):
                stats[k] += r[k]
            ph["obligations"] += r["obligations"]
            ph["discharged"] += r["discharged"]
            ph["paths"] += r["paths"]
            stats["solver_s"] += r["solver_s"]
            for k, v in r["by"].items():
                stats["by"][k] = stats["by"].get(k, 0) + v
            for q in r["refuted"]:
                replays.append((h, ci, q))
            for u in r["undecided"]:
                undecided.append((h, ci, u))
        else:
            conc["evaluations"] += r["ok"]
            conc["distinct"] += r["distinct"]
            conc["assertions"] += r["proved"]
            conc["skipped"] += r["skip"]
            conc["samples"] += r["samples"]
            ph["bounded_runs"] += r["ok"]
            if r["fail"]:
                violations.append({"harness": h.name, "case_index": ci, "case": repr(h.cases[ci]), "seed": f"{a.seed}.{key[3]}",
                                   **r["fail"]})
    for h in hs:   # vacuity of bounded harnesses
        if h.kind == "bounded" and perh[h.name]["bounded_runs"] == 0 and h.name not in absent and not any(v["harness"] == h.name for v in violations) \
                and not any(e[0] is h for e in errors):
            undecided.append((h, 0, "vacuous: no generated case satisfied the precondition"))
    if absent and all(h.name in absent for h in hs):
        undecided.append((hs[0], 0, f"no contract left: {absent}"))
    # counter-models are replayed on the real, uninstrumented code
    rr = run_tasks([(i, w_replay, (h, h.cases[ci], q["values"] if "values" in q else {}), 120) for i, (h, ci, q) in enumerate(replays)], a.jobs)
    for i, (h, ci, q) in enumerate(replays):
        st, r = rr[i]
        if st == "ok" and r["status"] == "fail":
            violations.append({"harness": h.name, "case_index": ci, "case": repr(h.cases[ci]), "values": q["values"],
                               "label": r["info"][0], "detail": r["info"][1], "obligation": q["label"], "by": "counter-model replayed"})
        else:
            undecided.append((h, ci, f"obligation '{q['label']}' refuted but the counter-model {q.get('values')} did not fail on replay ({r if st == 'error' else r['status']}) {q.get('detail', '')}"))
    for h, ci, e in errors:
        undecided.append((h, ci, "concrete worker: " + e))
    # undecided obligations: directed search for a failing input
    if undecided and not violations:
        seen = {}
        for h, ci, u in undecided:
            seen.setdefault((h.name, ci), (h, ci))
        t2 = []
        for k, (h, ci) in list(seen.items())[:64]:
            for s in range(2):
                t2.append(((k, s), w_concrete, (h, h.cases[ci], 3000, f"{a.seed}.x{s}", 60), 200))
        r2 = run_tasks(t2, a.jobs, time.time() + (150 if tier == "quick" else 600))
        for (k, s), (st, r) in r2.items():
            h, ci = seen[k]
            if st == "ok" and "gone" not in r:
                conc["evaluations"] += r["ok"]
                if r["fail"]:
                    violations.append({"harness": h.name, "case_index": ci, "case": repr(h.cases[ci]), "seed": f"{a.seed}.x{s}", **r["fail"]})
    # known findings
    for key, (p, what) in known_lines().items():
        if p != prop:
            continue
        wf = ROOT / "known" / f"{key}.json"
        d = json.loads(wf.read_text())
        h = byname.get(d["harness"])
        if h is None:
            continue

        def w(h=h, d=d):
            install_known(ignore=True)
            allc = [*h.cases, *h.more_cases] if a.tier != "thorough" else h.cases
            return w_replay(h, allc[d["case_index"]], d["values"])
        st, r = run_tasks([("k", w, (), 120)])["k"]
        if st == "ok" and r["status"] == "fail":
            print(f"KNOWN-FINDING: property={prop} {what}")
    rep = ROOT / "replays"
    rep.mkdir(exist_ok=True)
    rc = 0
    seenv = set()
    vio = 0
    for v in violations:
        k = (v["harness"], v["label"])
        if k in seenv:
            continue
        seenv.add(k)
        vio += 1
        name = re.sub(r"[^A-Za-z0-9]+", "_", v["harness"])[:40]
        f = rep / f"{prop}_{name}_{hashlib.md5(repr(k).encode()).hexdigest()[:6]}.json"
        v["property"] = prop
        v["how_to_replay"] = f"./run.sh {prop} --replay {f.relative_to(ROOT)}"
        f.write_text(json.dumps(v, indent=1, default=str))
        print(f"  {prop} {v['harness']} [{v['case'][:60]}]: '{v['label']}' fails: {v['detail']}  inputs={v['values']}"[:1500])
        print(f"VIOLATION property={prop} replay={f}")
        rc = 1
    if undecided and rc == 0:
        rc = 1
        vio += 1
        f = rep / f"{prop}_undischarged.json"
        f.write_text(json.dumps({"property": prop, "harness": None, "undischarged": [
            {"harness": h.name, "case": repr(h.cases[ci]), "reason": u} for h, ci, u in undecided[:50]]}, indent=1, default=str))
        for h, ci, u in undecided[:12]:
            print(f"  undischarged: {h.name} [{h.cases[ci]!r:.60}]: {u[:700]}")
        print(f"VIOLATION property={prop} replay={f} no-failing-input-found")
    elif undecided:
        for h, ci, u in undecided[:5]:
            print(f"  also undischarged: {h.name}: {u[:300]}")
    mod = importlib.import_module("props." + prop.lower())
    targets = sorted({t for h in hs for t in h.targets})
    proved_h = [h for h in hs if h.kind == "proof"]
    shape_h = [h for h in hs if h.kind == "shape"]
    bounded_h = [h for h in hs if h.kind == "bounded"]
    level = getattr(mod, "LEVEL", "proof")
    wall = time.time() - t0
    cov = {
        "obligations": stats["obligations"], "discharged": stats["discharged"],
        "obligations_all_inputs": sum(perh[h.name]["obligations"] for h in proved_h),
        "obligations_fixed_shape_all_values": sum(perh[h.name]["obligations"] for h in shape_h),
        "discharged_by": stats["by"], "solver_s": round(stats["solver_s"], 2), "paths": stats["paths"],
        "path_feasibility_queries": stats["branch_queries"],
        "checker_cmd": f"./run.sh {prop} (pv symbolic executor over CPython + rational normal form + z3 {_z3v()})",
        "trusted_base": ["CPython 3.12 executing the real b_asic modules", "pv/sym.py symbolic number semantics (cross-checked by the concrete runs)",
                         "pv/hook.py builtins shadows", "z3", "pv/poly.py rational normal form", "apytypes and numpy where called",
                         *getattr(mod, "TRUSTED", [])],
        "evaluations": conc["evaluations"], "distinct_nontrivial": conc["distinct"],
        "runtime_contract_assertions": conc["assertions"],
        "rule": "one evaluation = one run of a contract harness on concrete generated inputs against the uninstrumented code with at least one contract clause checked; distinct by drawn inputs",
        "samples": conc["samples"][:8] or [{"note": "no concrete run"}],
        "functions_under_contract": target_info(targets),
        "harnesses": perh,
        **({"contracts_without_their_private_function": absent} if absent else {}),
        "bounded_stand_ins": [{"harness": h.name, "bound": h.bound or "generated inputs"} for h in bounded_h],
        "shape_bounded": [{"harness": h.name, "bound": h.bound or "graph shape per case", "cases": [repr(c)[:80] for c in h.cases][:40]} for h in shape_h],
        "undecided": [f"{h.name}: {u[:200]}" for h, ci, u in undecided[:20]],
        "explanation": getattr(mod, "EXPLANATION", ""),
    }
    ev = {"property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": a.seed, "level": level, "coverage": cov,
          "assumptions": ["machine floats are treated as exact rationals in symbolic runs (rounding is not modelled); concrete runs use a 1e-7 relative tolerance",
                          *getattr(mod, "ASSUMPTIONS", [])],
          "wall_s": round(wall, 2), "violations": vio}
    if not a.only:
        (ROOT / "evidence").mkdir(exist_ok=True)
        (ROOT / "evidence" / f"{prop}.json").write_text(json.dumps(ev, indent=1, default=str))
    print(f"{prop} {tier}: {stats['discharged']}/{stats['obligations']} obligations discharged over {stats['paths']} paths, "
          f"{conc['evaluations']} concrete contract runs ({conc['skipped']} skipped), {len(targets)} functions, {vio} violation(s), {wall:.1f}s")
    if a.v:
        for n, p in perh.items():
            print("   ", n, p)
        slow = sorted(((r[1]["wall"], hs[k[1]].name, k[2]) for k, r in res.items() if k[0] == "s" and r[0] == "ok"), reverse=True)[:8]
        print("    slowest symbolic:", [(round(w, 1), n, c) for w, n, c in slow])
    return rc


def _z3v():
    import z3
    return z3.get_version_string()


if __name__ == "__main__":
    sys.exit(main())
