#!/usr/bin/env python3
"""Source of MANIFEST.json (run: python3 tools/mkmanifest.py)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import claims
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in claims.CLAIMS:
        tech, note = claims.CLAIMS[i]
        checks.append({"property": i, "quick_cmd": "./check.py %s quick" % i, "thorough_cmd": "./check.py %s thorough" % i,
                       "technique": tech, "level": "model_checking", "level_note": note})
    else: na.append({"property": i, "reason": claims.NA.get(i, "no check yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "hooks": {"guard": "VERIF_HOOKS", "enable": "the drivers and the library are compiled with -DVERIF_HOOKS by lib/vbuild.py", "source_commits": []},
     "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
