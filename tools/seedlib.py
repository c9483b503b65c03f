"""tools for planted bugs: build a patch from an edit, confirm that the tests pass with it, that the demo passes without it and fails with it"""
import json, os, shutil, subprocess, sys, tempfile, textwrap
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
HEAD = '''import sys, os
sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
import gc
gc.collect = lambda *a: 0
import arrow, datetime as pdt
from estrade import *
from estrade.enums import *
from estrade.exceptions import *
from estrade.graph import *
from estrade.trade_provider import TradeProviderBacktests, BaseTradeProvider
B, S = TradeDirection.BUY, TradeDirection.SELL
class Quiet(BaseTradeProvider):
    def open_trade_request(self, trade): return trade
    def close_trade_request(self, trade_close): return trade_close
def tick(t, bid=10, ask=None): return Tick(datetime=arrow.get(t), bid=bid, ask=bid if ask is None else ask)
'''
BASE = {x: 1 for x in json.load(open("/opt/vp/BASELINE.json"))["stable"]}


def tests_pass(d):
    out = os.path.join(d, ".junit.xml")
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-n0", "--timeout=300", "-o", "junit_family=xunit2", f"--junitxml={out}", "tests"],
                   cwd=d, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL) if False else subprocess.run(
        [PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "-o", "junit_family=xunit2", f"--junitxml={out}", "tests"],
        cwd=d, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    res = os.path.join(d, ".res.json")
    subprocess.run([PY, "/opt/vp/results.py", res, f"junit:{out}"], cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    passed = set(json.load(open(res))["passed"])
    return sorted(set(BASE) - passed)


def seed(id, prop, edits, demo, needs, what):
    """edits: [(file, old, new)]"""
    tmp = tempfile.mkdtemp(prefix="seed")
    d = os.path.join(tmp, "repo")
    try:
        subprocess.run(["git", "-C", "/repo", "worktree", "prune"])
        subprocess.run(["cp", "-a", "/repo", d], check=True)
        subprocess.run(["git", "-C", d, "checkout", "-q", "--", "."], check=True)
        for f, old, new in edits:
            p = os.path.join(d, f)
            s = open(p).read()
            if s.count(old) != 1:
                return f"{id}: edit text occurs {s.count(old)} times in {f}"
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", d, "diff"], capture_output=True, text=True).stdout
        src = HEAD + textwrap.dedent(demo)
        dp = os.path.join(tmp, "demo.py")
        open(dp, "w").write(src)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
        bad = subprocess.run([PY, dp], cwd=d, env=env, capture_output=True, text=True)
        good = subprocess.run([PY, dp], cwd="/repo", env=env, capture_output=True, text=True)
        if good.returncode:
            return f"{id}: demo fails on the unchanged tree: {good.stderr[-600:]}"
        if not bad.returncode:
            return f"{id}: demo passes with the change"
        miss = tests_pass(d)
        if miss:
            return f"{id}: {len(miss)} tests fail: {miss[:2]}"
        o = os.path.join(HERE, "seeded", id)
        os.makedirs(o, exist_ok=True)
        open(os.path.join(o, "patch.diff"), "w").write(diff)
        open(os.path.join(o, "demo.py"), "w").write(src)
        open(os.path.join(o, "demo.sh"), "w").write('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(o, "demo.sh"), 0o755)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(os.path.join(o, "meta.json"), "w"), indent=1)
        return f"{id}: kept ({bad.stderr.strip().splitlines()[-1][:100] if bad.stderr.strip() else ''})"
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run_all(seeds):
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as ex:
        for r in ex.map(lambda a: seed(*a), seeds):
            print(r, flush=True)
