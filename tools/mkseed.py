"""mkseed.py: makes /verif/seeded/<id>/patch.diff and meta.json from a description on stdin (JSON:
id, property, needs, what_it_breaks, edits [[file, old, new]...]); demo.sh is written separately"""
import json, os, subprocess, sys
d = json.load(sys.stdin) if len(sys.argv) < 2 else json.load(open(sys.argv[1]))
R = os.environ.get("VERIF_REPO", "/repo")
assert not subprocess.run(["git", "-C", R, "diff", "--quiet"]).returncode, "dirty"
out = "/verif/seeded/" + d["id"]; os.makedirs(out, exist_ok=True)
try:
    for f, a, b in d["edits"]:
        p = os.path.join(R, f); s = open(p).read(); assert s.count(a) == 1, (f, s.count(a), a); open(p, "w").write(s.replace(a, b))
    open(out + "/patch.diff", "w").write(subprocess.check_output(["git", "-C", R, "diff"], text=True))
finally: subprocess.run(["git", "-C", R, "checkout", "-q", "--", "."], check=True)
json.dump({k: d[k] for k in ("property", "needs", "what_it_breaks")}, open(out + "/meta.json", "w"), indent=1)
