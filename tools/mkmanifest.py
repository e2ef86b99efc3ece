#!/usr/bin/env python3
# writes /verif/MANIFEST.json from the list of claimed properties
import json
from claims import CLAIMS, NA, LEVEL
M = {"version": 1,
     "setup_cmd": "cd /verif && bash tools/setup.sh",
     "hooks": {"guard": "verif", "enable": "no hooks: the contracts are read by gocon through an overlay, /repo holds none of them", "source_commits": []},
     "checks": [], "not_applicable": [{"property": p, "reason": r} for p, r in NA]}
for p, note, *rest in CLAIMS:
    M["checks"].append({
        "property": p,
        "quick_cmd": "python3 tools/check.py %s quick" % p,
        "thorough_cmd": "python3 tools/check.py %s thorough" % p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": "contract-based deductive verification of the Go source (weakest preconditions over go/ssa, discharged by z3/cvc5)",
        "level": LEVEL.get(p, "proof"),
        "level_note": note})
json.dump(M, open("/verif/MANIFEST.json", "w"), indent=1)
