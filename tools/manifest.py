#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SYM = "symbolic execution of the real generic code (own engine over rational functions); z3 (QF_LRA/QF_NRA) decides branches and obligations; counterexamples replayed with Rational arithmetic on the real code"
KANI = "Kani/CBMC bounded model checking of the real source file"
CLAIMED = {}
def sym(ids, note):
    for i in ids.split():
        CLAIMED[i] = (SYM, note)
def kani(ids, note):
    for i in ids.split():
        CLAIMED[i] = (KANI, note)
exec(open(os.path.join(here, "tools", "claims.py")).read())
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "bin/setup", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in CLAIMED:
        tech, note = CLAIMED[i]
        m["checks"].append({"property": i, "quick_cmd": f"bin/check {i} quick", "thorough_cmd": f"bin/check {i} thorough",
            "technique": tech, "level": "model_checking", "level_note": note})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "not built yet: the check for this property is in progress")})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
