#!/usr/bin/env python3
"""Writes MANIFEST.json from the implemented components (comp/cNN.py) and the NA table."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here); sys.path.insert(0, os.path.join(here, "tools"))
import props
NA = {}
checks, na = [], []
for p in props.P:
    i = p["id"]
    if os.path.exists(os.path.join(here, "comp", i.lower() + ".py")):
        checks.append(dict(property=i, quick_cmd="python3 check.py " + i, thorough_cmd="VERIF_TIER=thorough python3 check.py " + i,
            technique="TLA+ specification model-checked with TLC; spec-generated and random behaviours replayed in the real code and the recordings validated by TLC",
            level="model_checking",
            level_note="The specification is checked exhaustively within the bounds of its .cfg; the code is bound to it by conformance of recorded behaviours (all spec-generated ones plus seeded random larger ones), so assurance on the code is as wide as those behaviours. Trusts TLC, g++/ASan and the harness in harness/."))
    else:
        na.append(dict(property=i, reason=NA.get(i, "not built yet")))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
         notes="No hooks: harnesses use the public API of /repo's current tree only. Repairs of genuine defects are the fix: commits of /repo, listed in known_findings.json.")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
