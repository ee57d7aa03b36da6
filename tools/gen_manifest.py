"""python3 tools/gen_manifest.py: MANIFEST.json from the property modules present"""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import sys; sys.path.insert(0, H)
from tools.levels import LEVELS, NOTES, NA
props = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if os.path.exists(os.path.join(H, "props", p + ".py")) and p not in NA:
        checks.append({"property": p, "quick_cmd": "/opt/venv/bin/python check.py %s quick" % p,
                       "thorough_cmd": "/opt/venv/bin/python check.py %s thorough" % p,
                       "technique": "contracts on the real source, discharged by symbolic execution with a loop rule (ring normal forms, z3)",
                       "level": LEVELS[p], "level_note": NOTES.get(p, "contract-based proof over exact arithmetic, see DESIGN.md")})
    else:
        na.append({"property": p, "reason": NA.get(p, "check not built yet")})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
