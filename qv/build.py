"""Incremental, content-addressed build of the sanitised driver from /repo.

Every object is keyed by the compiler flags plus the content of the source
file and of every /repo or /verif header it included last time, so an object is
reused exactly when nothing it was made from has changed.  Nothing is written
outside /verif/build.
"""
import fcntl, glob, hashlib, json, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("QV_REPO", "/repo")
BUILD = os.environ.get("QV_BUILD", os.path.join(VERIF, "build"))

COMMON = [
    "-std=c++11", "-w", "-pipe", "-DQUICKBOOK_NO_DATES", "-DBOOST_FILESYSTEM_NO_DEPRECATED",
    "-DBOOST_CONFIG_SUPPRESS_OUTDATED_MESSAGE", "-ftemplate-depth=300",
    "-I", os.path.join(VERIF, "compat"), "-include", "boost/core/invoke_swap.hpp",
]
VARIANTS = {
    "san": ["g++", "-O1", "-g1", "-D_GLIBCXX_ASSERTIONS", "-fno-omit-frame-pointer",
            "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"],
    "fuzz": ["clang++", "-O1", "-g1", "-D_GLIBCXX_ASSERTIONS", "-fno-omit-frame-pointer",
             "-fsanitize=address,undefined,fuzzer-no-link",
             "-fno-sanitize-recover=undefined"],
}
LIBS = ["-lboost_program_options", "-lboost_filesystem", "-lboost_system"]

class BuildError(Exception):
    pass

_hash_cache = {}

def file_hash(path):
    if path not in _hash_cache:
        try:
            with open(path, "rb") as f:
                _hash_cache[path] = hashlib.sha256(f.read()).hexdigest()
        except OSError:
            _hash_cache[path] = "missing"
    return _hash_cache[path]

def parse_dep(path):
    with open(path) as f:
        text = f.read().replace("\\\n", " ")
    text = text.split(":", 1)[1]
    deps = []
    for d in text.split():
        d = os.path.normpath(d)
        if d.startswith("/usr/"):
            continue
        deps.append(d)
    return sorted(set(deps))

def compile_one(variant, src, extra):
    """Returns (object path, key) or raises BuildError."""
    flags = VARIANTS[variant] + COMMON + extra
    base = hashlib.sha256(json.dumps([flags, src]).encode()).hexdigest()[:24]
    d = os.path.join(BUILD, "obj", variant, os.path.basename(src) + "-" + base)
    os.makedirs(d, exist_ok=True)
    index = os.path.join(d, "index.json")
    entries = []
    if os.path.exists(index):
        try:
            entries = json.load(open(index))
        except ValueError:
            entries = []
    for e in entries:
        if all(file_hash(p) == h for p, h in e["deps"]) and \
                os.path.exists(os.path.join(d, e["obj"])):
            return os.path.join(d, e["obj"]), e["obj"]
    tmp = os.path.join(d, "tmp.%d" % os.getpid())
    cmd = flags + ["-MMD", "-MF", tmp + ".d", "-c", src, "-o", tmp + ".o"]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise BuildError("%s\n%s" % (src, r.stdout.decode("utf-8", "replace")[:3000]))
    deps = parse_dep(tmp + ".d")
    if src not in deps:
        deps.append(src)
    hashes = [(p, file_hash(p)) for p in deps]
    key = hashlib.sha256(json.dumps([base, hashes]).encode()).hexdigest()[:24]
    obj = key + ".o"
    os.replace(tmp + ".o", os.path.join(d, obj))
    os.unlink(tmp + ".d")
    entries = [e for e in entries if e["obj"] != obj]
    entries.insert(0, {"obj": obj, "deps": hashes})
    for e in entries[6:]:
        try:
            os.unlink(os.path.join(d, e["obj"]))
        except OSError:
            pass
    with open(index + ".tmp", "w") as f:
        json.dump(entries[:6], f)
    os.replace(index + ".tmp", index)
    return os.path.join(d, obj), obj

def build(variant="san", link_extra=(), target="qvdrv", driver_dir="drivers", quiet=True):
    """Builds the driver and returns (path, [adapters that did not compile])."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        return _build(variant, link_extra, target, driver_dir, quiet)

def _build(variant, link_extra, target, driver_dir, quiet):
    _hash_cache.clear()
    jobs = []
    for src in sorted(glob.glob(os.path.join(REPO, "src", "*.cpp"))):
        extra = ["-Dmain=quickbook_main"] if os.path.basename(src) == "quickbook.cpp" else []
        jobs.append((src, extra, True))
    for src in sorted(glob.glob(os.path.join(VERIF, driver_dir, "*.cpp"))):
        core = not os.path.basename(src).startswith("unit_")
        jobs.append((src, ["-I", os.path.join(REPO, "src")], core))
    big = {"main_grammar.cpp": -3, "syntax_highlight.cpp": -2, "doc_info_grammar.cpp": -2,
           "actions.cpp": -2, "bb2html.cpp": -2}
    jobs.sort(key=lambda j: big.get(os.path.basename(j[0]), 0))
    objs, keys, failed, skipped = [], [], [], []
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        futs = [(j, ex.submit(compile_one, variant, j[0], j[1])) for j in jobs]
        for (src, _, required), fut in futs:
            try:
                obj, key = fut.result()
                objs.append(obj)
                keys.append(key)
            except BuildError as e:
                if required:
                    failed.append(str(e))
                else:
                    skipped.append((os.path.basename(src), str(e)))
    if failed:
        raise BuildError("\n".join(failed))
    def link(objs, keys):
        lk = hashlib.sha256(json.dumps([sorted(keys), list(link_extra)]).encode()).hexdigest()[:24]
        out = os.path.join(BUILD, "bin", variant, target + "-" + lk)
        if os.path.exists(out):
            os.utime(out)
            return out
        os.makedirs(os.path.dirname(out), exist_ok=True)
        cmd = VARIANTS[variant] + ["-fuse-ld=gold"] + list(link_extra) + sorted(objs) + \
            ["-o", out + ".tmp"] + LIBS
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise BuildError("link failed\n" + r.stdout.decode("utf-8", "replace")[-2500:])
        os.replace(out + ".tmp", out)
        old = sorted(glob.glob(os.path.join(BUILD, "bin", variant, target + "-*")),
                     key=os.path.getmtime, reverse=True)
        for p in old[6:]:
            os.unlink(p)
        return out
    try:
        return link(objs, keys), skipped
    except BuildError as first:
        # An adapter may reference something that a refactoring renamed: drop
        # the adapters that do not link one at a time.
        import re
        cur = list(zip(objs, keys))
        err = str(first)
        for _ in range(20):
            bad = [i for i, (o, _) in enumerate(cur)
                   if "/unit_" in o and os.path.basename(os.path.dirname(o)).split("-")[0] in err]
            if not bad:
                raise first
            for i in reversed(bad):
                skipped.append((os.path.basename(os.path.dirname(cur[i][0])).split("-")[0], err[-600:]))
                del cur[i]
            try:
                return link([o for o, _ in cur], [k for _, k in cur]), skipped
            except BuildError as e:
                err = str(e)
        raise first

if __name__ == "__main__":
    try:
        path, skipped = build(sys.argv[1] if len(sys.argv) > 1 else "san")
    except BuildError as e:
        sys.stderr.write(str(e)[:6000] + "\n")
        sys.exit(2)
    for name, err in skipped:
        sys.stderr.write("adapter not built: %s\n%s\n" % (name, err[:1500]))
    print(path)
