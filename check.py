#!/usr/bin/env python3-vt
"""check.py PROPERTY [--tier quick|thorough]

Decides one property of /repo's current source:
 1. every contract that carries the property is verified against the current source
    (pyvc: symbolic execution of the real function bodies, z3/cvc5 discharge each obligation);
 2. the same property's oracle is run on random scenarios of the real code under CPython, as a
    cross-check of the verifier's model of Python and of the libraries, and as the search for a
    concrete failing input when an obligation is not discharged.
Exit 0: every obligation discharged, no failing input.  Exit 1: a VIOLATION line."""
import argparse
import json
import os
import subprocess
import sys
import time
from concurrent.futures import ProcessPoolExecutor, as_completed

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable


def drive(prop, seed, secs, maxc=10 ** 9):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", VERIF_REPO=REPO)
    return subprocess.Popen([PY, os.path.join(HERE, "runtime", "drive.py"), prop, str(seed), str(secs), str(maxc)],
                            stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env, cwd="/tmp")


def outcome(p, secs):
    try:
        o, e = p.communicate(timeout=secs + 120)
        return json.loads(o.strip().splitlines()[-1])
    except subprocess.TimeoutExpired:
        p.kill()
        return {"evaluations": 0, "failure": {"case": None, "message": "a scenario does not terminate"}}
    except Exception as ex:
        return {"evaluations": 0, "failure": {"case": None, "message": f"the scenario driver failed: {ex}: {e[-800:] if 'e' in dir() else ''}"}}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("-j", type=int, default=min(8, os.cpu_count() or 1))
    a = ap.parse_args()
    prop, tier = a.prop, ("thorough" if a.tier == "thorough" else "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    secs, procs, deep = (12, 2, 40) if tier == "quick" else (240, 4, 240)
    from pyvc import run as R
    prog, reg = R.load(REPO)
    units = R.select(reg, {prop}, None)
    if not units:
        print(f"no contract carries {prop}")
        sys.exit(2)
    idx = [reg.units.index(u) for u in units]
    idx.sort(key=lambda i: -getattr(reg.units[i], "cost", 0))
    drivers = [(drive(prop, f"{seed}.{k}", secs), secs) for k in range(procs)]
    results = []
    with ProcessPoolExecutor(a.j) as ex:
        futs = [ex.submit(R.verify_unit, i, REPO, {prop}) for i in idx]
        for f in as_completed(futs):
            r = f.result()
            results.append(r)
            bad = [o for o in r["obligations"] if o["status"] != "valid"]
            print(f"{'ok ' if not bad else 'BAD'} {r['unit']}: {len(r['obligations'])} obligations, {len(bad)} not discharged, "
                  f"{r['paths']} paths, {r['secs']:.1f} s", flush=True)
    results.sort(key=lambda r: r["unit"])
    obs = [o for r in results for o in r["obligations"]]
    bad = [o for o in obs if o["status"] != "valid"]
    for r in results:
        if not r["obligations"] and not r.get("optional"):
            bad.append({"name": f"{r['unit']}: no obligation was generated", "status": "vacuous", "backend": "-", "secs": 0,
                        "fn": r["fn"], "model": None})
    outs = [outcome(*d) for d in drivers]
    fail = next((o["failure"] for o in outs if o["failure"]), None)
    searched = False
    if bad and not fail:
        searched = True
        more = [drive(prop, f"{seed}.deep{k}", deep) for k in range(a.j)]
        mo = [outcome(p, deep) for p in more]
        outs += mo
        fail = next((o["failure"] for o in mo if o["failure"]), None)
    backends = {}
    for o in obs:
        if o["status"] == "valid":
            backends[o["backend"]] = backends.get(o["backend"], 0) + 1
    assumed = sorted({f"contract assumed, not verified: {c.qual}: {c.assumed}" for c in reg.contracts.values()
                      if getattr(c, "assumed", None) and any(c.qual in r["by_contract"] for r in results)})
    ext = sorted({e for r in results for e in r["ext"]})
    wall = round(time.time() - t0, 2)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "proof",
        "coverage": {
            "obligations": len(obs), "discharged": len(obs) - len([o for o in obs if o["status"] != "valid"]),
            "checker_cmd": f"python3-vt check.py {prop}  (verifier alone: python3-vt -m pyvc.run -p {prop} -v)",
            "trusted_base": ["pyvc (this verifier: its symbolic execution of the Python subset in pyvc/engine.py, loops.py)",
                             "z3 / cvc5", "the library models of pyvc/lib.py listed under assumptions",
                             "floats as mathematical reals, integers unbounded"] + assumed,
            "functions_under_contract": sorted({r["fn"] for r in results}),
            "functions_inlined": sorted({i for r in results for i in r["inlined"]}),
            "callees_by_contract": sorted({c for r in results for c in r["by_contract"]}),
            "obligations_by_back_end": backends,
            "solver_s": round(sum(o["secs"] for o in obs), 2),
            "not_discharged": [o["name"] for o in bad][:50],
            "samples": [o["name"] for o in obs[:: max(1, len(obs) // 12)]][:14],
            "cpython_cross_check": {"scenarios": sum(o["evaluations"] for o in outs),
                                    "rule": "random scenarios through the public API of the real code, compared with an independent oracle "
                                            "of the property (bounded; a check of the verifier's models, never counted as proof)",
                                    "failure": fail},
        },
        "assumptions": ext + assumed + [
            "floating-point arithmetic is treated as real arithmetic, round() as exact decimal rounding",
            "single-threaded execution of library code: request threads are modelled as started/finished events",
            "garbage collection, logging and docstrings have no effect on behaviour"],
        "wall_s": wall, "violations": 1 if (fail or bad) else 0,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", f"{prop}.json"), "w"), indent=1)
    print(f"{prop}: {len(obs)} obligations, {len(bad)} not discharged; {sum(o['evaluations'] for o in outs)} scenarios; {wall} s")
    if not fail and not bad:
        sys.exit(0)
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    path = os.path.join(HERE, "replays", f"{prop}.json")
    json.dump({"property": prop, "failing_input": fail,
               "replay_command": f"{PY} {HERE}/runtime/drive.py --case {prop} '{fail['case']}'" if fail and fail.get("case") else None,
               "failed_obligations": [{k: o.get(k) for k in ("name", "fn", "status", "backend", "secs", "goal", "model")} for o in bad][:40]},
              open(path, "w"), indent=1, default=str)
    for o in bad[:12]:
        print(f"  not discharged ({o['status']}): {o['name']}")
    if fail:
        print(f"  failing input {fail['case']}: {fail['message']}")
        print(f"VIOLATION property={prop} replay={path}")
    else:
        print(f"VIOLATION property={prop} replay={path} no-failing-input-found")
    sys.exit(1)


if __name__ == "__main__":
    main()
