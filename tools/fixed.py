#!/usr/bin/env python3
"""Append a repaired defect to known_findings.json: fixed.py PROPERTY COMMIT KEY WHAT"""
import json, sys
p, commit, key, what = sys.argv[1:]
d = json.load(open("known_findings.json"))
d.append({"property": p, "status": "fixed", "commit": commit, "key": key, "what": "fixed: property=%s %s %s" % (p, commit, what)})
json.dump(d, open("known_findings.json", "w"), indent=1)
open("known_findings.json", "a").write("\n")
