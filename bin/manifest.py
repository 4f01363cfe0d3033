#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/cNN.py (META) and the list of properties."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)["id"]
    try:
        m = importlib.import_module(p.lower())
    except ModuleNotFoundError:
        na.append({"property": p, "reason": "no check for it has been built yet"})
        continue
    checks.append({"property": p, "quick_cmd": "python3 bin/check.py " + p, "thorough_cmd": "python3 bin/check.py %s thorough" % p,
                   "technique": "explicit TLA+ specification model checked with TLC; " + m.META["technique"],
                   "level": "model_checking", "level_note": m.META["note"]})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
           "notes": "see DESIGN.md; every check builds libsrcml from /repo's working tree below /verif/.build (or VERIF_BUILD)"},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
