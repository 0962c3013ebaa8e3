#!/usr/bin/env python3
"""addfix.py PROP COMMIT TEXT: records a repaired defect"""
import json, sys, subprocess
p, c, t = sys.argv[1:4]
c = subprocess.check_output(["git", "-C", "/repo", "log", "-1", "--format=%h", c], text=True).strip()
f = "/verif/known_findings.json"
d = json.load(open(f))
d["entries"] = [e for e in d["entries"] if not (e["status"] == "fixed" and e["commit"] == c and e["property"] == p)]
d["entries"].append({"status": "fixed", "property": p, "commit": c, "text": "fixed: property=%s %s %s" % (p, c, t)})
open(f, "w").write(json.dumps(d, indent=1) + "\n")
