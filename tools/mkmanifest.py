#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of checks that exist."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
T = {}
LEXT = "TLA+ specification of lexing and token streams (TLC): exhaustive model + validation of traces recorded from the real lexer"
LEXN = ("TLC checks the specification exhaustively on small texts/histories against independently stated invariants, and validates "
        "every recorded step of the real lexer on thousands of generated lexicons, texts and histories; beyond those bounds it is a sample. "
        "Trusts TLC, the regex AST to source rendering, and the driver's recording.")
for n in list(range(10, 17)) + [27]:
    T["C%02d" % n] = (LEXT, LEXN)
exec(open(os.path.join(ROOT, "tools", "manifest_extra.py")).read()) if os.path.exists(os.path.join(ROOT, "tools", "manifest_extra.py")) else None
m = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": [],
     "notes": "All checks: python3 checks/run.py <id>; tier from VERIF_TIER, seed from VERIF_SEED. No hooks in /repo are needed."}
for p in props:
    i = p["id"]
    if i in T:
        m["checks"].append({"property": i, "quick_cmd": "VERIF_TIER=quick python3 checks/run.py " + i,
                            "thorough_cmd": "VERIF_TIER=thorough python3 checks/run.py " + i,
                            "technique": T[i][0], "level": "model_checking", "level_note": T[i][1]})
    else:
        m["not_applicable"].append({"property": i, "reason": "check not built yet"})
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
