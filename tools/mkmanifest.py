#!/usr/bin/env python3
"""writes MANIFEST.json from registry.py"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from registry import PROPS, NOT_APPLICABLE
checks = []
for p in sorted(PROPS):
    P = PROPS[p]
    c = dict(property=p, quick_cmd="python3 tools/check.py " + p, thorough_cmd="VERIF_TIER=thorough python3 tools/check.py " + p,
             evidence_file="evidence/%s.json" % p,
             technique="contracts on the extracted real functions, discharged by Verus (Z3)" if P["units"] else "bounded check of the contract on the real code",
             level=P["level"], level_note=P["note"])
    if P["units"]:
        c["theorems"] = P["theorems"]
    checks.append(c)
m = dict(version=1, setup_cmd="python3 tools/check.py --setup", checks=checks,
         not_applicable=[dict(property=k, reason=v) for k, v in sorted(NOT_APPLICABLE.items())],
         notes="No hooks are needed in /repo: the proofs work on functions extracted from its current sources on every run, the searches on a copy of it with a test module added. See DESIGN.md.")
json.dump(m, open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
