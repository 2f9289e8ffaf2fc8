#!/usr/bin/env python3
"""Confirms planted bugs: seed.py SPEC.py [ID...]

SPEC.py defines SEEDS = {id: {"property", "needs", "what_it_breaks",
"edits": [(file, old, new)], "demo": source of demo.py}}.  Each is applied in a
scratch copy of /repo; its demonstration must pass before and fail after, the
stable unit tests must pass, and the property's check is run against it.
"""
import glob, json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KIT = V + "/tools/seedkit"
TESTS = ["cleanup_test", "glob_test", "post_process_test", "source_map_test", "values_test"]

def sh(cmd, cwd, env=None, timeout=1800):
    e = dict(os.environ)
    e.update(env or {})
    r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return r.returncode, r.stdout.decode("utf-8", "replace")

def unit_tests(wd):
    """The stable tests that fail in this tree."""
    sys.path.insert(0, KIT)
    import qbk
    cwd = os.getcwd()
    os.chdir(wd)
    try:
        bad = []
        first = True
        for t in TESTS:
            src = os.path.abspath("test/unit/%s.cpp" % t)
            if first:
                exe = qbk.build(main=src)
                first = False
            else:
                exe = qbk.scratch + "/" + t
                objs = [o for o in glob.glob(qbk.scratch + "/*.o") if not o.endswith("/main.o")]
                inc = qbk.scratch + "/include"
                subprocess.check_call(["g++"] + qbk.FLAGS + ["-I", inc, "-I", os.path.abspath("src"), "-include", "boost/core/invoke_swap.hpp", src] + objs +
                                      ["-o", exe, "-lboost_program_options", "-lboost_filesystem", "-lboost_system"])
            r = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
            if r.returncode:
                bad.append(t)
        return bad
    finally:
        os.chdir(cwd)

def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    ids = sys.argv[2:] or list(ns["SEEDS"])
    wd = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    wd_repo = wd + "/repo"
    try:
        subprocess.check_call(["git", "clone", "-q", os.environ.get("SEED_REPO", "/repo"), wd_repo])
        for sid in ids:
            s = ns["SEEDS"][sid]
            d = V + "/seeded/" + sid
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            for f in ("qbk.py", "demo.sh"):
                shutil.copy(KIT + "/" + f, d)
            open(d + "/demo.py", "w").write("import os, sys\nsys.dont_write_bytecode = True\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nfrom qbk import *\n" + s["demo"].lstrip("\n"))
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["what_it_breaks"]}, open(d + "/meta.json", "w"), indent=1)
            rc, out = sh(["bash", d + "/demo.sh"], wd_repo)
            if rc:
                print(sid, "DEMO FAILS ON THE UNCHANGED TREE\n", out); shutil.rmtree(d); continue
            ok = True
            for f, a, b in s["edits"]:
                p = wd_repo + "/" + f
                t = open(p).read()
                if t.count(a) != 1:
                    print(sid, "edit matches %d times: %r" % (t.count(a), a)); ok = False; break
                open(p, "w").write(t.replace(a, b))
            if not ok:
                sh(["git", "checkout", "-q", "--", "."], wd_repo); shutil.rmtree(d); continue
            diff = subprocess.run(["git", "diff"], cwd=wd_repo, stdout=subprocess.PIPE).stdout
            open(d + "/patch.diff", "wb").write(diff)
            rc, out = sh(["bash", d + "/demo.sh"], wd_repo)
            bad = unit_tests(wd_repo) if rc and "doesn't build" not in out else ["?"]
            if rc == 0 or bad:
                print(sid, "NOT VALID: demo rc", rc, "tests failing", bad, out[-1500:])
                shutil.rmtree(d)
            else:
                crc, cout = sh(["python3", "check.py", s["property"]], V, {"QV_REPO": wd_repo, "QV_BUILD": wd + "/build", "VERIF_SEED": "1", "VERIF_TIER": "quick"})
                viol = ("VIOLATION property=" + s["property"]) in cout
                print(sid, s["property"], "CAUGHT" if crc == 1 and viol else "MISSED rc=%s" % crc, "|", out.strip().splitlines()[-1][:150], flush=True)
                if not (crc == 1 and viol):
                    print("   ", cout[-600:])
            sh(["git", "checkout", "-q", "--", "."], wd_repo)
            sys.stdout.flush()
    finally:
        shutil.rmtree(wd, ignore_errors=True)

main()
