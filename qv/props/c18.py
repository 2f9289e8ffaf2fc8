"""C18: the outcome is a function of the input: equal runs give equal bytes,
and options that have nothing to do with an output leave it alone."""
import re
from ..engine import Fail, Discard, Family
from ..driver import Driver
from ..docgen import VERSIONS, header
from ..docrun import show_files
from ..soup import document, mutate
from . import c19
from .c02 import dec, enc, setup

# memory that is never the same: what new allocations are filled with, and
# how soon they are used again
OTHER = [":malloc_fill_byte=0:max_malloc_fill_size=1000000", ":malloc_fill_byte=32:max_malloc_fill_size=1000000:quarantine_size_mb=0:thread_local_quarantine_size_kb=0",
         ":malloc_fill_byte=91:max_malloc_fill_size=1000000:quarantine_size_mb=1", ":malloc_fill_byte=255:max_malloc_fill_size=1000000:quarantine_size_mb=0:thread_local_quarantine_size_kb=0"]

def other_driver(env, n):
    """Another process, with other contents of its memory."""
    key = "c18 driver %d" % n
    if key not in env.cache:
        env.cache[key] = Driver(env.driver.path, asan=OTHER[n])
        base = env.close
        def close(base=base, d=env.cache[key]):
            d.close()
            base()
        env.close = close
    return env.cache[key]

def files_of(src):
    kind = src.weighted([(5, "soup"), (3, "model"), (2, "damaged")])
    if kind == "model":
        fs, _ = c19.document(src, src.pick([107, 107, 106, 105, 103]))
        return kind, {k: v for k, v in fs.items()}
    doc, files, _ = document(src, errors=src.bool(0.4), raw=src.bool(0.3))
    files = dict(files)
    if kind == "damaged":
        k = src.pick(["m.qbk"] + sorted(k for k, v in files.items() if isinstance(v, str)))
        if k == "m.qbk": doc = mutate(src, doc)
        else: files[k] = mutate(src, files[k])
    files["m.qbk"] = doc
    return kind, {k: enc(v) if v is not None else v for k, v in files.items()}

def has_clock(files):
    return any(v is not None and b"__" in enc(v) and (b"__DATE__" in enc(v) or b"__TIME__" in enc(v)) for v in files.values())

STAMP = re.compile(rb"\$Date: [^$<>\"]*\$")

def outcome(res, debug=True):
    files = res.files if debug else {k: STAMP.sub(b"$Date$", v) for k, v in res.files.items()}
    return res.kind, res.code, res.out, res.err, files

def differ(a, b, names=("kind", "status", "standard output", "standard error")):
    for x, y, n in zip(a, b, names):
        if x != y:
            return "%s: %r and %r" % (n, x[-700:] if isinstance(x, bytes) else x, y[-700:] if isinstance(y, bytes) else y)
    fa, fb = a[4], b[4]
    if set(fa) != set(fb):
        return "files %s and %s" % (sorted(fa), sorted(fb))
    for k in sorted(fa):
        if fa[k] != fb[k]:
            x, y = fa[k], fb[k]
            i = next((i for i in range(min(len(x), len(y))) if x[i] != y[i]), min(len(x), len(y)))
            return "%s at %d: ...%r and ...%r" % (k, i, x[max(0, i - 80):i + 200], y[max(0, i - 80):i + 200])
    return None

BASE = [[], ["--strict"], ["--no-pretty-print"], ["--ms-errors"], ["-D", "M2=x"], ["--no-self-linked-headers"], ["--output-deps", "deps.txt"], ["--output-checked-locations", "locs.txt"], ["--indent", "4"], ["--linewidth", "40"]]

def base(src):
    fmt = src.weighted([(4, "boostbook"), (2, "onehtml"), (3, "html")])
    args, out = setup(src, fmt)
    if "--output-file" not in args and "--output-format" not in args:
        args = ["--output-format", fmt] + args
    for a in src.many(0, 3, 0.8):
        args = args + src.pick(BASE)
    # an option is only given once
    seen, i, r = set(), 0, []
    while i < len(args):
        two = i + 1 < len(args) and not args[i + 1].startswith("-")
        if args[i] not in seen:
            r += args[i:i + (2 if two else 1)]
        seen.add(args[i])
        i += 2 if two else 1
    return fmt, r, out

def first(env, files, args):
    res = env.run(files, args)
    if res.kind == "timeout":
        raise Discard("takes long")
    if res.kind != "exit":
        raise Discard("crashes (see C01)")
    return res

def f_repeat(src, env):
    kind, files = files_of(src)
    fmt, args, out = base(src)
    debug = src.bool(0.6) or has_clock(files)
    args = ["m.qbk"] + (["--debug"] if debug else []) + args
    src.key = repr(sorted(files.items())) + repr(args)
    src.sample = {"files": {k: dec(v)[:300] for k, v in files.items() if v is not None}, "args": args}
    src.label(kind)
    src.label(fmt)
    a = first(env, files, args)
    n = src.int(0, len(OTHER) - 1)
    b_ = other_driver(env, n).run(files, args, stir=src.int(1, 1000))
    src.nontrivial = len(files["m.qbk"]) > 60
    d = differ(outcome(a, debug), outcome(b_, debug))
    if d:
        raise Fail("two runs with the same input differ (memory %s): %s\n%s\n%s" % (OTHER[n], d, " ".join(args), show_files(files)))

LINE = re.compile(rb"^([^\n]*?)\((\d+)\): (error|warning|detail|note)", re.M)
LINE2 = re.compile(rb"^(/[^\n]*?|[^\n:]*?):(\d+): (error|warning|detail|note)", re.M)

def plain_lines(err):
    return LINE.sub(rb"\1:\2: \3", err)

def f_options(src, env):
    kind, files = files_of(src)
    fmt, args, out = base(src)
    args = ["m.qbk", "--debug"] + args
    text = b"\n".join(enc(v) for v in files.values() if v is not None)
    choices = ["deps", "locs", "I", "D", "ms", "expect", "stale", "file", "order", "nocase"]
    if fmt == "boostbook": choices += ["html options", "elsewhere"]
    if b".svg" not in text: choices.append("images")
    if b"xinclude" not in text: choices.append("xbase")
    if "--strict" not in args: choices.append("strict")
    what = src.pick(choices)
    full, more, norm, extra = list(args), dict(files), (lambda o: o), []
    if what == "deps":
        if "--output-deps" in args: raise Discard("already")
        full += ["--output-deps", "newdeps"] + src.pick([[], ["--output-deps-format", "checked"], ["--output-deps-format", "escaped,checked"]])
        extra = ["newdeps"]
    elif what == "locs":
        if "--output-checked-locations" in args: raise Discard("already")
        full += ["--output-checked-locations", "newlocs"]
        extra = ["newlocs"]
    elif what == "I":
        full += src.pick([["-I", "emptydir"], ["-I", "nowhere"], ["--include-path", "emptydir", "-I", "emptydir"]])
        more["emptydir"] = None
        if "--output-deps" in args or "--output-checked-locations" in args: extra = ["deps.txt", "locs.txt"]
    elif what == "D":
        full += ["-D", src.pick(["zz_unused_1", "zz_unused_1=[* x]", "zz_unused_1=[footnote a]"])]
    elif what == "ms":
        if "--ms-errors" in args: raise Discard("already")
        full += ["--ms-errors"]
        norm = lambda o: o[:3] + (plain_lines(o[3]),) + o[4:]
    elif what == "expect":
        full += ["--expect-errors"]
        end = b"Error: No errors detected for --expect-errors.\n"
        norm = lambda o: (o[0], o[1], o[2], o[3].replace(end, b""), o[4])
    elif what == "stale":
        for k in ("out.xml", "m.xml", "out.html", "m.html", "pages/index.html", "html/index.html", "deps.txt", "locs.txt"):
            if k not in more:
                more[k] = b"stale\n" * src.pick([1, 100, 5000])
    elif what == "file":
        more[src.pick(["zz.unrelated", "m.qbk.orig", "d9/zz.unrelated", "m"])] = b"[* junk"
    elif what == "order":
        # the order of options does not matter
        groups, i = [], 1
        while i < len(args):
            two = i + 1 < len(args) and not args[i + 1].startswith("-")
            groups.append(args[i:i + (2 if two else 1)])
            i += 2 if two else 1
        groups.append(["m.qbk"])
        full = [x for g in src.shuffled(groups) for x in g]
    elif what == "nocase":
        # other spellings of the options
        full = []
        i = 0
        while i < len(args):
            if args[i].startswith("--") and i + 1 < len(args) and not args[i + 1].startswith("-") and args[i] not in ("--debug",) and src.bool(0.6):
                full.append(args[i] + "=" + args[i + 1])
                i += 2
                continue
            full.append(args[i])
            i += 1
        full = [("--input-file=m.qbk" if x == "m.qbk" and src.bool(0.5) else x) for x in full]
        # -D x, -Dx, --define x
    elif what == "html options":
        full += src.pick([["--boost-root-path", "root"], ["--css-path", "a/b.css"], ["--graphics-path", "http://x/y"], ["--css-path", "c.css", "--graphics-path", "g"]])
    elif what == "images":
        full += ["--image-location", src.pick(["imgs", "nowhere", "."])]
    elif what == "xbase":
        full += ["--xinclude-base", src.pick(["d8", "."])]
        more["d8"] = None
    elif what == "strict":
        full += ["--strict"]
    elif what == "elsewhere":
        if b"xinclude" in text: raise Discard("xinclude is relative to the output")
        target = "d8/p q.xml"
        more["d8"] = None
        full = [target if x == out else x for x in args]
        if target not in full:
            full += ["--output-file", target]
        norm = lambda o: (o[0], o[1], re.sub(rb"(?m)^Generating output file: .*\n", b"", o[2]), o[3], dict((out if k == target else k, v) for k, v in o[4].items()))
    src.key = repr(sorted(files.items())) + repr(args) + repr(full)
    src.sample = {"args": args, "with": full, "files": {k: dec(v)[:300] for k, v in files.items() if v is not None}}
    src.label(what)
    a = first(env, files, args)
    b_ = first(env, more, full)
    oa, ob = norm(outcome(a)), norm(outcome(b_))
    where = "%s\n%s\n%s\n%s\n%s" % (" ".join(args), " ".join(full), show_files(files), a.describe(), b_.describe())
    fa, fb = dict(oa[4]), dict(ob[4])
    if what in ("stale", "file"):
        # files that were there are only reported when they changed
        for k in more:
            if k not in files and k not in fb and k in fa:
                raise Fail("%s was not written over an earlier file: %s" % (k, where))
        for k in fb:
            if k in more and k not in files and k not in fa:
                raise Fail("%s was changed: %s" % (k, where))
    for k in extra:
        if what in ("deps", "locs"):
            if k not in fb and b_.code == 0:
                raise Fail("%s is missing: %s" % (k, where))
        else:
            fa.pop(k, None)
        fb.pop(k, None)
    if what == "expect":
        if oa[1] == ob[1]:
            raise Fail("the status does not change with --expect-errors: " + where)
        ob = (ob[0], oa[1]) + ob[2:]
    if what == "strict" and b_.code != 0:
        if a.code and not b_.code:
            raise Fail("strict mode accepts what is rejected without it: " + where)
        if a.code == b_.code and not (fa.keys() == fb.keys()):
            raise Fail("the files differ: " + where)
        src.nontrivial = True
        return
    src.nontrivial = len(files["m.qbk"]) > 60
    d = differ(oa[:4] + (fa,), ob[:4] + (fb,))
    if d:
        raise Fail("%s: %s: %s" % (what, d, where))

def f_paths(src, env):
    """The same file by another path."""
    kind, files = files_of(src)
    text = b"\n".join(enc(v) for v in files.values() if v is not None)
    fmt, args, out = base(src)
    args = ["--debug"] + [x for x in args]
    if fmt == "boostbook" and "--output-file" not in args:
        args += ["--output-file", "out.xml"]
    elif fmt == "onehtml" and "--output-file" not in args:
        args += ["--output-file", "out.html"]
    elif fmt == "html" and "--output-dir" not in args:
        args += ["--output-dir", "pages"]
    for k in ("--output-deps", "--output-checked-locations"):
        if k in args:
            i = args.index(k)
            del args[i:i + 2]
    if b"xinclude" in text and fmt != "html": src.label("xinclude")
    files["d8"] = None
    sub = None
    how = src.pick(["./", "d8/../", ".//", "absolute", "cwd", "cwd2"])
    inp = {"./": "./m.qbk", "d8/../": "d8/../m.qbk", ".//": ".//m.qbk", "absolute": "@CWD@/m.qbk", "cwd": "../m.qbk", "cwd2": "@CWD@/../m.qbk"}[how]
    other = list(args)
    if how.startswith("cwd"):
        sub = "d8"
        for k in ("--output-file", "--output-dir"):
            if k in other:
                i = other.index(k)
                other[i + 1] = "../" + other[i + 1]
    src.key = repr(sorted((k, v) for k, v in files.items() if v)) + repr(args) + how
    src.sample = {"args": args, "input": inp, "files": {k: dec(v)[:300] for k, v in files.items() if v is not None}}
    src.label(how)
    src.label(fmt)
    if b"__FILENAME__" in text: raise Discard("the path itself is shown")
    a = first(env, files, ["m.qbk"] + args)
    b_ = env.run(files, [inp] + other, subdir=sub)
    def norm(res, prefix):
        o = outcome(res)
        out_ = b"\n".join(l for l in o[2].split(b"\n") if not l.startswith(b"Generating"))
        err = o[3]
        if prefix:
            for p in prefix:
                err = err.replace(p, b"")
        return (o[0], o[1], out_, err, o[4])
    cwd = enc(b_.cwd)
    prefixes = {"./": [b"./"], "d8/../": [b"d8/../"], ".//": [b".//", b"./"], "absolute": [cwd + b"/"], "cwd": [b"../"], "cwd2": [cwd + b"/../"]}[how]
    oa, ob = norm(a, [p for p in prefixes if p not in (cwd + b"/",)] if how != "absolute" else []), norm(b_, prefixes)
    src.nontrivial = len(files["m.qbk"]) > 60
    where = "%s\n%s\n%s\n%s\n%s" % (" ".join(["m.qbk"] + args), " ".join([inp] + other), show_files(files), a.describe(), b_.describe())
    d = differ(oa, ob)
    if d:
        raise Fail("%s: %s: %s" % (how, d, where))

def f_search(src, env):
    """Files that are searched for, from other working directories and with
    other spellings of the directories."""
    dirs = ["", "d8", "inc", "Inc2", "z/y"]
    home = src.pick(["", "d8", "z/y"])
    names, files = [], {}
    for i in src.many(2, 7, 4):
        d = src.pick(dirs) if src.bool(0.7) else src.pick([home, "inc"])
        n = (d + "/" if d else "") + src.pick("abcAB_0") + src.pick(["", "1", "b", "-"]) + ".qbk"
        if n not in files:
            body = "[h%d Heading %s]\n" % (src.int(1, 3), n) if src.bool(0.3) else ""
            files[n] = ("[quickbook 1.7]\n" if src.bool(0.2) else "") + body + "p%d %s\n\n[def M%d %d]\n[template t%d f%d]\n" % (i, n.replace("_", "-"), i % 3, i, i, i)
    doc = "[quickbook 1.7]\n[article T]\n\n"
    globs = 0
    for i in src.many(1, 3, 1.7):
        kind = src.pick(["include", "include", "import"])
        pre = src.pick(["", "", "", "inc/", "z/", "../"]) if src.bool(0.3) else ""
        if src.bool(0.75):
            doc += "[%s %s%s.qbk]\n\n" % (kind, pre, src.pick(["[a-cA-B]*", "?", "??", "[^m]*", "*b", "a*", "[ab0]*"]))
            globs += 1
        else:
            n = src.pick(sorted(files))
            doc += "[%s %s]\n\n" % (kind, n.split("/")[-1])
        doc += "q%d M0 M1 M2\n\n" % i
    if src.bool(0.3):
        doc += "[xinclude x.xml]\n"
    m = (home + "/" if home else "") + "m.qbk"
    files[m] = doc
    for d in dirs[1:]:
        files.setdefault(d, None)
    incs = [d or "." for d in src.shuffled(dirs)[:src.int(1, 3)]] if src.bool(0.8) else []
    args = ["--debug"] + src.pick([[], [], ["--no-pretty-print"]])
    def spell(d, how):
        return {"plain": d, "./": "./" + d, "up": "d8/../" + d, "absolute": "@CWD@/" + d, "absolute2": "@CWD@/../" + d, "cwd": "../" + d, "cwd2": "../d8/../" + d}[how]
    runs = []
    for _ in range(2):
        sub = src.pick([None, None, "d8"])
        hows = ["cwd", "cwd2", "absolute2"] if sub else ["plain", "./", "up", "absolute"]
        out = "../o.xml" if sub else "o.xml"
        a = [spell(m, src.pick(hows)), "--output-file", out, "--xinclude-base", spell("z", "cwd" if sub else "plain")] + args
        for d in incs:
            a += ["-I", spell(d, src.pick(hows))]
        runs.append((a, sub))
    src.key = repr(sorted((k, v) for k, v in files.items() if v)) + repr(runs)
    src.sample = {"runs": runs, "files": {k: v for k, v in files.items() if v is not None}}
    src.nontrivial = globs >= 1 and len(files) > 6
    src.label("from another directory" if runs[0][1] != runs[1][1] else "same directory")
    res = [env.run(files, a, subdir=sub, subst=True) for a, sub in runs]
    for r in res:
        if r.kind != "exit":
            raise Discard("doesn't end (see C01)")
    a, b = res
    where = "%s\n%s\n%s\n%s\n%s" % (runs[0], runs[1], show_files(files), a.describe(), b.describe())
    if a.code != b.code:
        raise Fail("status %d and %d: %s" % (a.code, b.code, where))
    if a.code == 0:
        x, y = a.files["o.xml"], b.files["o.xml"]
        if x != y:
            raise Fail("the documents differ: %s\n-----\n%s\n-----\n%s" % (where, dec(x), dec(y)))
    src.label("exit %d" % a.code)

PROPERTY = {
    "id": "C18",
    "rule": "both runs came to an end and the document has more than a title",
    "families": [
        Family("repeat", f_repeat, 3500, rule="documents of every construct, right, wrong or damaged, converted twice with the same options in processes with different memory contents and reuse, in every output format"),
        Family("options", f_options, 4000, rule="the same, with and without an option, a file or an earlier output that has nothing to do with the result"),
        Family("paths", f_paths, 1500, rule="the same, with the input given by another path or from another directory"),
        Family("search", f_search, 1500, rule="trees of files that are found with globs and searched for in include directories, converted from two working directories with two spellings of the directories"),
    ],
}
