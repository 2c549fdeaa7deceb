"""Rewrite the "fixed" list of known-findings.json from FIXED below, checking
the commits against /repo's log."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = open(V + "/tools/fixed.txt").read().strip().split("\n")
log = {l.split(" ", 1)[0]: l.split(" ", 1)[1] for l in subprocess.run(
    ["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()}
out = []
for l in FIXED:
    p, h, w = l.split(" ", 2)
    assert log[h].startswith("fix:"), l
    out.append("fixed: property=%s %s %s" % (p, h, w))
    log.pop(h)
for h, s in log.items():
    if s.startswith("fix:"):
        print("not listed:", h, s)
k = json.load(open(V + "/known-findings.json"))
k["fixed"] = out
with open(V + "/known-findings.json", "w") as f:
    json.dump(k, f, indent=1)
    f.write("\n")
