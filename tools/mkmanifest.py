#!/usr/bin/env python3
"""Write MANIFEST.json from the table below and properties.jsonl."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = ("contract-based deductive verification: contracts on the real functions, obligations generated from the LLVM IR "
        "that clang emits for /repo's current sources (ovc), discharged by z3 and cvc5")
TECH2 = ("contract-based deductive verification: for each generated parser the obligations of every path of the scanner loop, taken from "
         "the LLVM IR that clang emits for /repo's current sources, under a loop invariant (control states with difference bounds over the "
         "positions) that is inferred and checked inductive on every run; helper functions by contract (ovc, z3, cvc5)")
exec(open(os.path.join(H, "tools", "claims.py")).read())
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMS:
        checks.append({"property": i, "quick_cmd": "cd /verif && python3-vt check.py %s quick" % i,
                       "thorough_cmd": "cd /verif && python3-vt check.py %s thorough" % i,
                       "technique": TECH2 if i in ("C16", "C17", "C18", "C19") else TECH, "level": "proof", "level_note": CLAIMS[i]})
    else:
        na.append({"property": i, "reason": NA.get(i, "not built yet")})
m = {"version": 1, "setup_cmd": "cd /verif && python3-vt -c 'import z3' && mkdir -p build evidence", "checks": checks,
     "not_applicable": na, "notes": NOTES}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not applicable")
