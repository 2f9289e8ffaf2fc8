"""Builds the program of the repository in the current directory and runs it
on documents, in a scratch directory that is removed at the end."""
import atexit, glob, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

scratch = tempfile.mkdtemp(prefix="qbkdemo-")
atexit.register(lambda: shutil.rmtree(scratch, ignore_errors=True))

SWAP = """#ifndef QBKDEMO_SWAP
#define QBKDEMO_SWAP
#include <utility>
#include <boost/swap.hpp>
namespace boost { namespace core { template <class T> void invoke_swap(T& a, T& b) { ::boost::swap(a, b); } } }
#endif
"""
FLAGS = ["-std=c++11", "-w", "-O0", "-pipe", "-DQUICKBOOK_NO_DATES", "-ftemplate-depth=300"]
SANITIZE = ["-fsanitize=address", "-g1"]

def build(sanitize=False, main=None):
    """The program; with `main` (a C++ file) its functions under that main."""
    inc = os.path.join(scratch, "include")
    os.makedirs(inc + "/boost/core", exist_ok=True)
    with open(inc + "/boost/core/invoke_swap.hpp", "w") as f:
        f.write(SWAP)
    flags = FLAGS + (SANITIZE if sanitize else []) + ["-I", inc, "-I", os.path.abspath("src"), "-include", "boost/core/invoke_swap.hpp"]
    objs = []
    jobs = []
    for src in sorted(glob.glob("src/*.cpp"), key=lambda s: -os.path.getsize(s)):
        o = os.path.join(scratch, os.path.basename(src) + ".o")
        jobs.append((flags + (["-Dmain=quickbook_main"] if main and src.endswith("/quickbook.cpp") else []) + ["-c", src, "-o", o]))
        objs.append(o)
    if main:
        o = os.path.join(scratch, "main.o")
        jobs.append(flags + ["-c", main, "-o", o])
        objs.append(o)
    with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        for r in ex.map(lambda j: subprocess.run(["g++"] + j, stdout=subprocess.PIPE, stderr=subprocess.STDOUT), jobs):
            if r.returncode:
                sys.exit("demo: the program doesn't build:\n" + r.stdout.decode()[:2000])
    exe = os.path.join(scratch, "quickbook")
    r = subprocess.run(["g++"] + (SANITIZE if sanitize else []) + objs + ["-o", exe, "-lboost_program_options", "-lboost_filesystem", "-lboost_system"],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        sys.exit("demo: the program doesn't link:\n" + r.stdout.decode()[:2000])
    return exe

class Result:
    pass

seq = [0]
def run(exe, files, args, timeout=60, cwd="."):
    seq[0] += 1
    d = os.path.join(scratch, "run%d" % seq[0])
    for n, t in files.items():
        p = os.path.join(d, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(t if isinstance(t, bytes) else t.encode())
    os.makedirs(d, exist_ok=True)
    r = Result()
    try:
        q = subprocess.run([exe] + args, cwd=os.path.join(d, cwd), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        r.code, r.out, r.err = q.returncode, q.stdout.decode("utf-8", "replace"), q.stderr.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        r.code, r.out, r.err = None, "", "timeout"
    r.files = {}
    for root, _, names in os.walk(d):
        for n in names:
            p = os.path.join(root, n)
            with open(p, "rb") as f:
                data = f.read()
            if os.path.relpath(p, d) not in files:
                r.files[os.path.relpath(p, d)] = data
    return r

def convert(exe, doc, args=(), files=None):
    fs = {"m.qbk": doc}
    fs.update(files or {})
    r = run(exe, fs, ["m.qbk", "--output-file", "o.xml"] + list(args))
    r.xml = r.files.get("o.xml", b"").decode("utf-8", "replace")
    return r

def check(ok, what):
    if not ok:
        print("demo: FAILED: " + what)
        sys.exit(1)
    print("demo: ok: " + what)
