#!/usr/bin/env python3
"""Tries hand-written changes: hand.py WORKDIR SPEC.py [NAME...]

SPEC defines M, a list of (name, "C01 C02 ...", file, old, new).  Each change
is made in a scratch clone and the named checks are run against it; prints
CAUGHT or MISSED."""
import os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
wd, spec, only = sys.argv[1], sys.argv[2], sys.argv[3:]
ns = {}
exec(open(spec).read(), ns)
repo = wd + "/repo"
os.makedirs(wd, exist_ok=True)
if not os.path.exists(repo):
    subprocess.check_call(["git", "clone", "-q", "/repo", repo])
env = dict(os.environ, QV_REPO=repo, QV_BUILD=wd + "/build", QV_SHRINK="0")
for m in ns["M"]:
    name, props = m[0], m[1].split()
    if only and not any(name.startswith(o) for o in only): continue
    edits = m[2:] if isinstance(m[2], tuple) else [m[2:5]]
    subprocess.check_call(["git", "-C", repo, "checkout", "-q", "."])
    ok = True
    for f, old, new in edits:
        p = repo + "/src/" + f
        s = open(p).read()
        if s.count(old) != 1:
            print("BADSPEC %s: %d matches in %s" % (name, s.count(old), f), flush=True)
            ok = False
            continue
        open(p, "w").write(s.replace(old, new))
    if not ok: continue
    res = []
    for c in props:
        t0 = time.time()
        r = subprocess.run([sys.executable, V + "/check.py", c], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        out = r.stdout.decode("utf-8", "replace")
        v = "nobuild" if "does not build" in out else "CAUGHT" if r.returncode == 1 and "VIOLATION" in out else "MISSED" if r.returncode == 0 else "ODD%d" % r.returncode
        open(wd + "/last-%s-%s" % (name, c), "w").write(out)
        res.append("%s:%s(%ds)" % (c, v, time.time() - t0))
        if v == "CAUGHT" and "-a" not in os.environ.get("HAND", ""): break
    print("%-30s %s" % (name, " ".join(res)), flush=True)
subprocess.check_call(["git", "-C", repo, "checkout", "-q", "."])
