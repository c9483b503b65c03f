"""drive.py PROPERTY SEED SECONDS MAXCASES | drive.py --case PROPERTY CASESEED
Runs random scenarios of the real code against the oracle of a property; prints one JSON line."""
import json
import os
import random
import sys
import time
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    a = sys.argv[1:]
    case = None
    if a[0] == "--case":
        prop, case = a[1], a[2]
    else:
        prop, seed, secs, maxc = a[0], a[1], float(a[2]), int(a[3])
    out = {"property": prop, "evaluations": 0, "failure": None}
    try:
        from common import Bad
        import drivers1
        import drivers2
        fn = getattr(drivers1, prop.lower(), None) or getattr(drivers2, prop.lower())
    except Exception as e:
        out["failure"] = {"case": None, "message": f"the package cannot be imported: {type(e).__name__}: {e}", "trace": traceback.format_exc()[-2000:]}
        print(json.dumps(out))
        return
    t0 = time.time()
    i = 0
    while True:
        cs = case if case is not None else f"{prop}:{seed}:{i}"
        rng = random.Random(cs)
        try:
            fn(rng)
        except Bad as e:
            out["failure"] = {"case": cs, "message": str(e)[:1500]}
        except Exception as e:
            out["failure"] = {"case": cs, "message": f"{type(e).__name__}: {e}"[:1500], "trace": traceback.format_exc()[-2500:]}
        i += 1
        if case is not None or out["failure"] or i >= maxc or time.time() - t0 > secs:
            break
    out["evaluations"] = i
    out["secs"] = round(time.time() - t0, 2)
    print(json.dumps(out))


main()
