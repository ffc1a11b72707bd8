#!/usr/bin/env python3
"""Write MANIFEST.json from the list of claimed properties below."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
TECH = "contract-based deductive verification of the repository's Python source (pyvc: path/VC generation from the real syntax trees, z3/cvc5/Groebner back ends)"
NOTE = {}
CLAIM = {}
exec(open(os.path.join(HERE, "claims.py")).read())
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIM:
        level, note = CLAIM[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": TECH, "level": level, "level_note": note})
    else:
        na.append({"property": i, "reason": NOTCLAIMED.get(i, "no contract of this property has been discharged yet")})
json.dump({"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": na,
           "notes": "Every check verifies contracts (contracts/) on the syntax trees parsed from /repo on that run, and runs the real code against independent oracles (conf/) as a bounded stage that replays failed obligations and covers what is left undecided; see DESIGN.md."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", len(na), "not claimed")
