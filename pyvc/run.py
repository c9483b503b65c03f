"""Verification of contracts against the current source of /repo.

usage: python3-vt -m pyvc.run [-p C01,C02] [-u substring] [-v] [-j N] [--json OUT]
"""
import argparse
import glob
import json
import os
import signal, sys
import time
import traceback

sys.setrecursionlimit(20000)
MAXBAD, GOALLEN = int(os.environ.get("MAXBAD", 6)), int(os.environ.get("GOALLEN", 300))
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load(repo="/repo"):
    from . import contracts, source, engine
    prog = source.Program(repo, extra={"specs": os.path.join(HERE, "contracts", "specs.py"),
                                       "stubs": os.path.join(HERE, "contracts", "stubs.py")})
    reg = contracts.Registry()
    reg.load(sorted(glob.glob(os.path.join(HERE, "contracts", "c_*.py"))) +
             [os.path.join(HERE, "contracts", f) for f in os.environ.get("PYVC_WIP", "").split(",") if f])
    return prog, reg


def make_engine(prog, reg):
    from . import engine
    return engine.Engine(prog, reg.resolve_schema(prog))


def select(reg, props, unit):
    us = []
    for u in reg.units:
        if props and not (u.all_props() & props):
            continue
        if unit and unit not in u.name:
            continue
        us.append(u)
    return us


UNIT_LIMIT = 450        # seconds for one contract; only changed code gets anywhere near


class TimeUp(BaseException):
    pass


def _time_up(*_):
    raise TimeUp(f"no answer after {UNIT_LIMIT} s")


def verify_unit(i, repo, props, debug=False):
    """one unit in a fresh engine -> dict"""
    t0 = time.time()
    prog, reg = load(repo)
    eng = make_engine(prog, reg)
    eng.debug = debug
    u = reg.units[i]
    signal.signal(signal.SIGALRM, _time_up)
    signal.setitimer(signal.ITIMER_REAL, UNIT_LIMIT)
    try:
        try:
            obs = u.verify(reg, eng, props)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    except (Exception, TimeUp) as e:  # a bug of the verifier is reported, never silently passed
        if debug:
            traceback.print_exc()
        obs = [{"name": f"{u.name}: verifier failure: {type(e).__name__}: {e}", "fn": u.qual, "props": sorted(u.all_props()),
                "status": "unsupported", "backend": "-", "secs": 0.0, "model": None,
                "goal": "".join(traceback.format_exc().splitlines(True)[-6:])}]
    return {"optional": getattr(u, "optional", False), "unit": u.name, "fn": u.qual, "obligations": obs, "secs": time.time() - t0,
            "by_contract": sorted(eng.calls_by_contract), "inlined": sorted(map(str, eng.inlined)),
            "ext": sorted(map(str, eng.ext_used)), "paths": eng.stats["paths"]}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("-p", default="")
    ap.add_argument("-u", default="")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("-d", action="store_true")
    ap.add_argument("-j", type=int, default=1)
    ap.add_argument("--repo", default=os.environ.get("VERIF_REPO", "/repo"))
    ap.add_argument("--json")
    a = ap.parse_args()
    props = set(a.p.split(",")) if a.p else None
    prog, reg = load(a.repo)
    idx = [reg.units.index(u) for u in select(reg, props, a.u)]
    out = []
    if a.j > 1:
        from concurrent.futures import ProcessPoolExecutor
        with ProcessPoolExecutor(a.j) as ex:
            futs = [ex.submit(verify_unit, i, a.repo, props) for i in idx]
            out = [f.result() for f in futs]
            for r in out:
                show(r, a.v)
    else:
        for i in idx:
            r = verify_unit(i, a.repo, props, a.d)
            show(r, a.v)
            out.append(r)
    if a.json:
        json.dump(out, open(a.json, "w"), indent=1)
    n = sum(len(r["obligations"]) for r in out)
    bad = sum(o["status"] != "valid" for r in out for o in r["obligations"])
    print(f"{n} obligations, {bad} not discharged")


def show(r, verbose):
    bad = [o for o in r["obligations"] if o["status"] != "valid"]
    print(f"{'ok ' if not bad else 'BAD'} {r['unit']}: {len(r['obligations'])} obligations, {len(bad)} bad, "
          f"{r['paths']} paths, {r['secs']:.1f}s", flush=True)
    for o in (r["obligations"] if verbose else bad[:MAXBAD]):
        print("    ", o["status"], o["backend"], f"{o['secs']:.2f}", o["name"])
        if o["status"] != "valid" and o.get("goal"):
            print("         ", o["goal"][:GOALLEN])
        if verbose and o.get("model"):
            print("         ", "; ".join(o["model"][:25]))


if __name__ == "__main__":
    main()
