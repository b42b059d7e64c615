#!/usr/bin/env python3
"""Writes MANIFEST.json: every property with a harness is claimed."""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
from harness import registry
registry.load_all()
props = [json.loads(l) for l in open(os.path.join(HERE, "..", "properties.jsonl"))]
have = {h.prop for h in registry.H.values()}
NOTE = ("Every branch of the real source reachable from the harness inputs is explored; each obligation is decided by z3 "
        "for all values of the symbolic inputs within the harness bounds. Trusted: the stand-ins for mathutils/math "
        "(checked by replaying proved paths on the real mathutils), real arithmetic instead of float32 rounding. ")
EXTRA = {}
exec(open(os.path.join(HERE, "levelnotes.py")).read()) if os.path.exists(os.path.join(HERE, "levelnotes.py")) else None
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        checks.append(dict(
            property=i,
            quick_cmd="python3-vt check.py %s --tier quick" % i,
            thorough_cmd="python3-vt check.py %s --tier thorough" % i,
            evidence_file="evidence/%s.json" % i,
            technique="symbolic execution of the real Python source, obligations decided by SMT (z3)",
            level="model_checking",
            level_note=NOTE + EXTRA.get(i, "")))
    else:
        na.append(dict(property=i, reason="no harness yet"))
m = dict(version=1, setup_cmd="python3-vt -c \"import z3, sympy\" && test -x /opt/venv/bin/python",
         checks=checks, not_applicable=na,
         notes="No hooks in /repo. python3-vt check.py PROP -v prints every harness; DESIGN.md explains the machinery.")
json.dump(m, open(os.path.join(HERE, "..", "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
