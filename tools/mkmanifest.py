#!/usr/bin/env python3
"""writes MANIFEST.json from the checks that exist in vlib/checks (run from /verif)"""
import importlib, json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if os.path.exists(os.path.join(V, "vlib/checks/%s.py" % p.lower())):
        m = importlib.import_module("vlib.checks." + p.lower())
        checks.append(dict(property=p, quick_cmd="python3 run.py %s quick" % p, thorough_cmd="python3 run.py %s thorough" % p,
                           technique=m.TECHNIQUE, level=m.LEVEL, level_note=m.NOTE))
    else: na.append(dict(property=p, reason="check not built yet"))
m = dict(version=1, setup_cmd="python3 tools/setup.py", hooks=dict(guard="VERIF_HOOKS", enable="vlib/build.py compiles /repo with -DVERIF_HOOKS (no hook in /repo needs it so far)", source_commits=[]),
         checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
