#!/usr/bin/env python3
"""Regenerate MANIFEST.json from mc/checks.py and properties.jsonl."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.join(V, "mc"))
from checks import CHECKS
try:
    from checks import NOT_APPLICABLE
except ImportError:
    NOT_APPLICABLE = {}
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "make -s -j8 -C mc OUT=/verif/build all", "checks": [], "not_applicable": []}
for p in props:
    if p in CHECKS:
        c = CHECKS[p]
        m["checks"].append({"property": p, "quick_cmd": "python3 mc/check.py %s --tier quick" % p,
            "thorough_cmd": "python3 mc/check.py %s --tier thorough" % p, "evidence_file": "evidence/%s.json" % p,
            "technique": c["technique"], "level": c.get("level", "model_checking"), "level_note": c["note"]})
    else:
        m["not_applicable"].append({"property": p, "reason": NOT_APPLICABLE.get(p, "no check built yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks")
