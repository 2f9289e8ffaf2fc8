#!/usr/bin/env python3
"""Runs /repo/test's gold documents (a development aid, not a check)."""
import glob, os, re, shutil, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from qv import build
from qv.driver import Driver
path, _ = build.build("san")
d = Driver(path)
tmp = tempfile.mkdtemp(dir="/dev/shm")
os.chmod(tmp, 0o777)
t = tmp + "/test"
shutil.copytree(build.REPO + "/test", t)
os.system("chmod -R a+rwX " + tmp)
def norm(s):
    return s.replace(b"\r\n", b"\n").strip()
ok = bad = 0
for fmt, ext in (("boostbook", "gold"), ("onehtml", "gold-html")):
    for g in sorted(glob.glob(t + "/**/*." + ext, recursive=True)):
        q = g[:-len(ext)] + "quickbook"
        if not os.path.exists(q):
            continue
        extra = []
        dirn = os.path.dirname(g)
        r = d.run_in(t, ["quickbook", q, "--output-format", fmt, "--output-file", q + ".out", "--debug",
                         "-D__macro__=*bold*" if "command_line" in q else "-D__unused__", "-D__empty__",
                         "-I" + t + "/include/sub", "-I" + t + "/include-sub", "--xinclude-base", t if "xinclude" not in q else dirn + "/.."])
        exp = norm(open(g, "rb").read())
        got = norm(open(q + ".out", "rb").read()) if os.path.exists(q + ".out") else b"?"
        if r.kind != "exit" or r.code not in (0, 1) or exp != got:
            bad += 1
            print(fmt, os.path.relpath(q, t), r.kind, r.code, "same" if exp == got else "DIFF", r.err[-300:].decode("latin-1"), r.out[-300:].decode("latin-1"))
        else:
            ok += 1
print(ok, "ok", bad, "bad")
d.close()
shutil.rmtree(tmp)
