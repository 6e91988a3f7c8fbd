#!/usr/bin/env python3
"""addfix.py PROPERTY COMMIT: records a fix: commit of /repo in known-findings.json (run by hand)"""
import json, subprocess, sys, os
f = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known-findings.json")
d = json.load(open(f))
h, t = subprocess.check_output(["git", "-C", "/repo", "log", "-1", "--format=%h %s", sys.argv[2]], text=True).strip().split(" ", 1)
d["findings"].append(dict(property=sys.argv[1], status="fixed", key="fixed:" + h, what="fixed: property=%s %s %s" % (sys.argv[1], h, t.replace("fix: ", ""))))
with open(f, "w") as o: json.dump(d, o, indent=1); o.write("\n")
