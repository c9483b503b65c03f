"""tryseeds.py [substring...]: runs the check of each planted bug on a copy of /repo with the bug"""
import json, os, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for s in sorted(os.listdir(HERE + "/seeded")):
    if len(sys.argv) > 1 and not any(a in s for a in sys.argv[1:]):
        continue
    prop = json.load(open(f"{HERE}/seeded/{s}/meta.json"))["property"]
    tmp = tempfile.mkdtemp(prefix="try")
    try:
        subprocess.run(["cp", "-a", "/repo", tmp + "/repo"], check=True)
        r = subprocess.run(["git", "-C", tmp + "/repo", "apply", f"{HERE}/seeded/{s}/patch.diff"], capture_output=True, text=True)
        if r.returncode:
            print(s, "patch does not apply", r.stderr[:200]); continue
        t = time.time()
        r = subprocess.run(["python3-vt", HERE + "/check.py", prop], env=dict(os.environ, VERIF_REPO=tmp + "/repo"), capture_output=True, text=True)
        nd = [l.strip() for l in r.stdout.splitlines() if "not discharged (" in l]
        fi = [l.strip() for l in r.stdout.splitlines() if l.strip().startswith("failing input")]
        print(f"{s}: exit {r.returncode} in {time.time() - t:.0f}s | obligations: {len(nd)} {nd[0][:110] if nd else ''} | {fi[0][:110] if fi else ''}", flush=True)
        if r.returncode not in (0, 1):
            print(r.stdout[-500:], r.stderr[-1500:])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
