#!/usr/bin/env python3
"""addfix.py ID TEXT-OF-COMMIT...: records the newest fix commits of /repo that
known_findings.json does not list yet; PROPERTY is given per commit."""
import json, subprocess, sys, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
k = json.load(open(V + "/known_findings.json"))
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s", "--reverse"], capture_output=True, text=True).stdout.splitlines()
new = [l for l in log if " fix: " in " " + l.split(" ", 1)[0] + " " + l.split(" ", 1)[1] and not any(l.split()[0] in f for f in k["fixed"])]
ids = sys.argv[1:]
assert len(ids) == len(new), new
for i, l in zip(ids, new):
    h, m = l.split(" ", 1)
    k["fixed"].append("fixed: property=%s %s %s" % (i, h, m.replace("fix: ", "", 1)))
json.dump(k, open(V + "/known_findings.json", "w"), indent=1)
