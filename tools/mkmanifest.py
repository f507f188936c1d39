#!/usr/bin/env python3
"""Writes MANIFEST.json from checks/*.py (TECHNIQUE, NOTE, LEVEL) and properties.jsonl."""
import importlib, json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
checks, na = [], []
for ln in open(V + "/properties.jsonl"):
    p = json.loads(ln)
    i = p["id"]
    if os.path.exists(V + "/checks/%s.py" % i.lower()):
        m = importlib.import_module("checks." + i.lower())
        checks.append({"property": i, "quick_cmd": "python3 check.py " + i,
                       "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                       "technique": m.TECHNIQUE, "level": getattr(m, "LEVEL", "exploration"), "level_note": m.NOTE})
    else:
        na.append({"property": i, "reason": "no check has been built for it yet"})
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
           "notes": "Known findings: known_findings.json. Every check builds what it runs from /repo's working tree into .build/ (ignored by git)."},
          open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
