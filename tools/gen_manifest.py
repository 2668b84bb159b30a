"""writes MANIFEST.json from claimed.txt and not_applicable.txt"""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
CLAIMED = {l.split()[0]: (l.strip().split(" ", 2) + ["", ""])[1:3] for l in open(H + "/claimed.txt") if l.strip() and not l.startswith("#")}
NA = dict(l.strip().split(" ", 1) for l in open(H + "/not_applicable.txt") if l.strip())
T = "contract-based deductive verification (contracts on the /repo functions; VCs from their clang AST on every run; z3/cvc5)"
N = "Every obligation generated from the current source must be discharged, over all inputs and iterations; reals for doubles, mathematical integers for loop counters; the contracts are also evaluated on the compiled code (failing-input search). "
py = "/opt/veriftools/pyvenv/bin/python3 check.py "
m = {"version": 1, "setup_cmd": "true",
     "checks": [{"property": p["id"], "quick_cmd": py + p["id"] + " --tier quick", "thorough_cmd": py + p["id"] + " --tier thorough", "technique": T, "level": CLAIMED[p["id"]][0] or "proof",
                 "level_note": N + CLAIMED[p["id"]][1]} for p in props if p["id"] in CLAIMED],
     "not_applicable": [{"property": p["id"], "reason": NA.get(p["id"], "no check built yet (work in progress)")} for p in props if p["id"] not in CLAIMED]}
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
