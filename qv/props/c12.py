"""C12 Dependency files."""
import fnmatch, os, posixpath, re
from ..engine import Family, Fail, Discard
from ..driver import pack

def unescape(t):
    names = {"a": 7, "b": 8, "t": 9, "n": 10, "v": 11, "f": 12, "r": 13, "\\": 92}
    def sub(m):
        x = m.group(1)
        return chr(names[x]) if x in names else chr(int(x, 8))
    return re.sub(r"\\([abtnvfr\\]|[0-7]{3})", sub, t)

def parse_checked(text, escaped):
    """-> (found set, missing set, {glob: set}, every name in order)"""
    found, missing, globs, cur, order = set(), set(), {}, None, []
    if text and not text.endswith("\n"):
        raise Fail("dependency file does not end with a newline: %r" % text)
    for line in text.split("\n")[:-1]:
        m = re.match(r"([-+g]) (.*)\Z", line)
        if not m:
            raise Fail("bad line %r in dependency file:\n%s" % (line, text))
        kind, name = m.groups()
        if escaped:
            name = unescape(name)
        if kind == "g":
            if name in globs:
                raise Fail("glob %r listed twice" % name)
            cur = globs[name] = set()
            continue
        dest = (found if kind == "+" else missing) if cur is None else cur
        if cur is not None and kind == "-":
            raise Fail("missing file listed as the match of a glob:\n%s" % text)
        if name in dest:
            raise Fail("%r listed twice:\n%s" % (name, text))
        dest.add(name)
        order.append(name)
    return found, missing, globs, order

def parse_plain(text, escaped):
    if text and not text.endswith("\n"):
        raise Fail("dependency file does not end with a newline: %r" % text)
    names = [unescape(x) if escaped else x for x in text.split("\n")[:-1]]
    if len(names) != len(set(names)):
        raise Fail("a name is listed twice:\n%s" % text)
    return set(names)

WEIRD = ["a", "b", "d/e", "./a", "x y", "t\tu", "back\\slash", "bell\x07", "del\x7f", "é", "ctl\x01", "new\nline",
         "\x0e\x0f\x10\x1f", "cr\r", "vt\x0bff\x0c", "q\\n", "\\", "a\\041", "../up", "d/e/f g", "\x08"]
EXIST = ["e1", "de/f2", "e 3", "e\\4", "e\n5", "e\x7f6", "é7"]

def f_tracker(src, env):
    sc = env.driver.scratch
    if "made" not in env.cache:
        for n in EXIST:
            p = os.path.join(sc, n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, "w").close()
        env.cache["made"] = True
    deps, globs, last = {}, {}, None
    ops, expect, trace = [], [], []
    seen_flags = []
    def show(flags):
        ops.append(pack("write", str(flags)))
        seen_flags.append(flags)
        expect.append(("write", flags, dict(deps), {k: set(v) for k, v in globs.items()}))
    for _ in src.many(1, 14, 7):
        k = src.weighted([(5, "dep"), (2, "glob"), (3, "match"), (1, "write")])
        if k == "write":
            show(src.draw(3))
            continue
        p = src.pick(EXIST) if src.bool(0.4) else src.pick(WEIRD)
        if src.bool(0.15):
            p = src.text("ab\n\t\\\x7f\x0f ", 1, 4, 2)
        if k == "match" and last is None:
            k = "glob"
        trace.append((k, p))
        ops.append(pack(k, p))
        if k == "dep":
            ex = p in EXIST or os.path.exists(os.path.join(sc, p))
            deps[p] = deps.get(p, False) or ex
            expect.append(("dep", ex))
        elif k == "glob":
            globs.setdefault(p, set())
            last = p
        else:
            globs[last].add(p)
    for f in range(4):
        show(f)
    r = env.unit("deps", *ops)
    if not isinstance(r, list):
        raise Fail("dependency tracker threw %r for %r" % (r, trace))
    src.key = repr(trace)
    src.sample = trace
    src.nontrivial = any(ord(c) < 32 or c in "\\\x7f" for _, p in trace for c in p)
    for e, got in zip(expect, r):
        got = got.decode("utf-8", "surrogateescape")
        if e[0] == "dep":
            if got != ("1" if e[1] else "0"):
                raise Fail("add_dependency answered %s, the file %s (%r)" % (got, "exists" if e[1] else "does not exist", trace))
            continue
        _, flags, d, g = e
        esc = bool(flags & 2)
        allnames = set(d) | set(g) | set(x for v in g.values() for x in v)
        if esc and re.search(r"[\x00-\x0f\x7f]", got.replace("\n", "")):
            raise Fail("escaped dependency file holds control characters: %r" % got)
        if not esc and any("\n" in n for n in allnames):
            # ambiguous by design; the names must be there
            for n in (allnames if flags & 1 else set(x for v in g.values() for x in v) | set(k for k in d if d[k])):
                if n not in got:
                    raise Fail("%r is not in the dependency file %r" % (n, got))
            continue
        if flags & 1:
            f_, m_, g_, _o = parse_checked(got, esc)
            if (f_, m_, g_) != (set(k for k in d if d[k]), set(k for k in d if not d[k]), g):
                raise Fail("dependency file %r (flags %d) after %r" % (got, flags, trace))
        else:
            want = set(k for k in d if d[k]) | set(x for v in g.values() for x in v)
            if parse_plain(got, esc) != want:
                raise Fail("dependency file %r (flags %d) after %r, expected %r" % (got, flags, trace, sorted(want)))

# -- whole documents ----------------------------------------------------
DIRS = ["", "a/", "a/b/", "inc/", "inc/a/", "i 2/", "html/", "a/html/", "pics/"]
IDIRS = ["inc", "i 2", "a", "./inc", "nodir", "a/../inc"]

def jn(a, b):
    if b.startswith("/"):
        return b
    return (a + "/" + b) if a else b

def q17(t):
    return t.replace(" ", "\\u0020").replace("[", "\\[").replace("]", "\\]")

class World:
    def __init__(self):
        self.files = {}     # normalised path -> text
        self.refs = {}      # normalised path -> list of references

    def exists(self, p):
        n = posixpath.normpath(p)
        # a path through a directory that does not exist is not found
        cur = ""
        for part in p.split("/")[:-1]:
            cur = jn(cur, part)
            d = posixpath.normpath(cur)
            if d != "." and not any(f.startswith(d + "/") for f in self.files):
                return False
        return n in self.files

    def isdir(self, p):
        d = posixpath.normpath(p or ".")
        if not d.startswith("..") and d != "." and not any(f.startswith(d + "/") for f in self.files):
            return False
        return True

    def listdir(self, p):
        d = posixpath.normpath(p or ".")
        out = set()
        for f in self.files:
            if d == "." or f.startswith(d + "/"):
                rest = f if d == "." else f[len(d) + 1:]
                out.add((rest.split("/")[0], "/" not in rest))
        return out

    def glob(self, loc, pat):
        parts = pat.split("/")
        for i, x in enumerate(parts):
            if re.search(r"[*?\[]", x):
                break
        else:
            p = jn(loc, pat)
            return [p] if self.exists(p) else []
        base = loc
        for x in parts[:i]:
            base = jn(base, x)
        if posixpath.normpath(base or ".").startswith(".."):
            raise Discard("glob outside the tree")
        if not self.isdir(base):
            return []
        out = []
        for name, isfile in self.listdir(base):
            if fnmatch.fnmatchcase(name, parts[i]):
                if i == len(parts) - 1:
                    if isfile:
                        out.append(jn(base, name))
                elif not isfile:
                    out += self.glob(jn(base, name), "/".join(parts[i + 1:]))
        return out

def f_document(src, env):
    w = World()
    main_dir = src.pick(["", "a/", "a/b/"])
    incs = [src.pick(IDIRS) for _ in src.many(0, 3, 1.2)]
    files = {d + ".keep": "" for d in DIRS}
    w.files.update(files)
    NAMES = ["f1.qbk", "f2.qbk", "f3.qbk", "g 2.qbk", "f3.cpp", "h3.py", "é3.quickbook"]
    def level(n):
        return int(re.search(r"(\d)\.", n).group(1))
    has_missing = src.bool(0.3)
    mv = src.pick([107, 106, 105])
    # templates of the main file that refer to files: what they name is
    # looked for where they are used
    tpl = []
    if mv == 107:
        for i in src.many(0, 2, 0.8):
            p = src.pick(["*3.quickbook", "*/f3.qbk", "f3.*", "f3.cpp", "a/f3.qbk", "../f3.cpp", "é3.quickbook"])
            tpl.append(("u%d" % (len(tpl) + 1), ("glob", p, src.pick(["include", "import"])) if "*" in p else (src.pick(["include", "import"]), p)))
    def make_refs(lv, ver):
        refs, text = [], ""
        if tpl and lv <= 2 and src.bool(0.3):
            n, r = src.pick(tpl)
            refs.append(("call", r))
            text += "[%s]\n\n" % n
        for _ in src.many(0 if lv else 1, 4, 2):
            k = src.weighted([(4, "include"), (3, "import"), (2, "svg"), (1, "png"), (2, "glob")])
            if k == "glob" and (ver < 107 or lv > 2):
                k = "include"
            if k in ("svg", "png"):
                p = src.pick(["p1", "p2", "sub/p1", "../p3"]) + "." + k
                refs.append((k, p))
                text += "text [$%s] text\n\n" % p
                continue
            if k == "glob":
                pats = [p for p in ("f3.*", "f?.qbk", "[f-h]*3.*", "*/f3.qbk", "a/*.qbk", "*3.quickbook", "../*/f3.cpp",
                                    "?/?/f[!2].qbk", "z/*.qbk", "[a]/f3.cpp", "*/g 2.qbk", "f[23].qbk")
                        if lv < 1 or (("3" in p) and "[f" not in p)]
                if lv >= 2:
                    pats = [p for p in pats if p in ("*3.quickbook", "*/f3.qbk", "f3.*")]
                if lv == 0 and main_dir:
                    pass
                p = src.pick(pats)
                kind = src.pick(["include", "import"])
                refs.append(("glob", p, kind))
                text += "[%s %s]\n\n" % (kind, q17(p.replace("[!", "[^")))
                continue
            cand = [n for n in NAMES if level(n) > lv]
            if not cand:
                continue
            if k == "include" and ver < 106 or lv >= 9:
                cand = [n for n in cand if n.endswith(".qbk")]
            if k == "import" and ver < 106:
                cand = [n for n in cand if not n.endswith("k")]
            if not cand:
                continue
            n = src.pick(cand)
            p = src.pick(["", "", "", "a/", "../", "b/", "./", "../inc/"]) + n
            refs.append((k, p))
            text += "[%s %s]\n\n" % (k, q17(p) if ver >= 107 else p)
        return refs, text
    # which copies of the names exist
    for n in NAMES:
        for d in DIRS[:6]:
            if src.bool(0.35):
                p = d + n
                if n.endswith("k"):
                    ver = src.pick([106, 107, 105])
                    refs, text = make_refs(level(n), ver)
                    w.refs[p] = (refs, ver)
                    w.files[p] = "[quickbook 1.%d]\n\n" % (ver - 100) + text
                else:
                    w.files[p] = "//[x%d\nint y;\n//]\n" % len(w.files) if n.endswith("cpp") else "#[x%d\ny\n#]\n" % len(w.files)
    for n in ["p1.svg", "sub/p1.svg", "p2.svg", "p1.png", "../p3.svg"]:
        for d in ("html/", "a/html/", "pics/", ""):
            p = posixpath.normpath(d + n)
            if not p.startswith("..") and src.bool(0.4):
                w.files[p] = '<svg width="3" height="4"></svg>'
    mrefs, mtext = make_refs(0, mv)
    mtext = "".join("[template %s[]\n[%s %s]\n]\n\n" % (n, r[-1] if r[0] == "glob" else r[0], q17(r[1])) for n, r in tpl) + mtext
    main = main_dir + "main.qbk"
    w.refs[main] = (mrefs, mv)
    w.files[main] = "[quickbook 1.%d]\n[article T]\n\n" % (mv - 100) + mtext
    arg = src.pick(["", "", "./", "@CWD@/"]) + main
    imgloc = src.pick([None, None, "pics", "html"])
    mdir = posixpath.dirname(arg)
    imgdir = imgloc if imgloc else jn(mdir, "html")

    deps, globs = {}, {}
    st = {"errors": 0}
    def real(p):
        return p.replace("@CWD@/", "", 1) if p.startswith("@CWD@/") else p
    used = set()
    def visit(path, imported, depth):
        refs, ver = w.refs[posixpath.normpath(real(path))]
        cur = posixpath.dirname(path)
        for r in refs:
            ver = w.refs[posixpath.normpath(real(path))][1]
            if r[0] == "call":
                src.label("template")
                r, ver = r[1], 107
            if r[0] == "png":
                continue
            if r[0] == "svg":
                p = jn(imgdir, r[1])
                deps[p] = deps.get(p, False) or w.exists(real(p))
                continue
            found = []
            if r[0] == "glob":
                kind = r[2]
                for loc in [cur] + incs:
                    key = jn(loc, r[1].replace("[!", "[^"))
                    m = w.glob_at(loc, r[1])
                    globs.setdefault(key, set()).update(m)
                    found += m
                found.sort()
            else:
                kind = r[0]
                for loc in [cur] + incs:
                    p = jn(loc, r[1])
                    ok = w.exists(real(p))
                    deps[p] = deps.get(p, False) or ok
                    if ok:
                        found = [p]
                        break
                else:
                    st["errors"] += 1
            for p in found:
                if imported and kind == "include" and ver >= 106:
                    break
                if p.endswith(".qbk") or p.endswith(".quickbook"):
                    if ver >= 106 or kind == "include":
                        used.add(p)
                        if st["errors"]:
                            # bodies after an error need not be read
                            st["optional"] = True
                        visit(p, kind == "import", depth + 1)
                        continue
                # a source file: templates may clash when it comes in twice
                if kind == "import":
                    q = "snippets of " + posixpath.normpath(real(p))
                    if q in used:
                        raise Discard("template redefinition")
                    used.add(q)
    def glob_at(loc, pat):
        out = w.glob(real(loc) if loc != "@CWD@" else "", pat)
        if loc.startswith("@CWD@"):
            out = [jn("@CWD@", x) for x in out]
        return out
    w.glob_at = glob_at
    deps[arg] = True
    visit(arg, False, 0)
    if st["errors"] and len(deps) > 60:
        raise Discard("large")
    out_of_tree = [p for p in list(deps) if posixpath.normpath(real(p)).startswith("..")]
    args = [arg, "--output-deps", "deps.txt"]
    flags = src.draw(3)
    fm = {0: None, 1: "checked", 2: "escaped", 3: src.pick(["checked,escaped", "escaped checked", "checked, escaped"])}[flags]
    if fm:
        args += ["--output-deps-format", fm]
    locs = src.bool(0.4)
    if locs:
        args += ["--output-checked-locations", "loc.txt"]
    for d in incs:
        args += src.pick([["-I", d], ["--include-path", d], ["-I" + d]])
    if imgloc:
        args += ["--image-location", imgloc]
    res = env.run(w.files, args)
    src.key = repr((sorted(w.files.items()), args))
    src.sample = "%s: %s" % (" ".join(args), {k: v for k, v in w.files.items() if v and v[0] == "["})
    src.nontrivial = len(deps) + len(globs) > 2
    if globs: src.label("glob")
    if st["errors"]: src.label("missing")
    if any(not v for v in deps.values()): src.label("probed and not found")
    ctx = "%s\n%s\n%s" % (args, {k: v for k, v in w.files.items() if v}, res.describe())
    if res.kind != "exit" or res.code not in (0, 1):
        raise Fail("run failed: " + ctx)
    if st["errors"] and res.code != 1:
        raise Fail("a file is missing but the run succeeded: " + ctx)
    if not st["errors"] and res.code != 0:
        if b"Template Redefinition" in res.err:
            raise Discard("template redefinition")
        raise Fail("the run failed although every file is there: " + ctx)
    if "deps.txt" not in res.files or (locs and "loc.txt" not in res.files):
        raise Fail("no dependency file was written: " + ctx)
    cwdb = os.fsdecode(res.cwd)
    def final(p):
        return p.replace("@CWD@", cwdb)
    wd = {final(k): v for k, v in deps.items()}
    wg = {final(k): set(final(x) for x in v) for k, v in globs.items()}
    def cmp_set(got, want, what):
        bad = got - want if st.get("optional") else got ^ want
        if bad:
            raise Fail("%s: %r differ: got %r, expected %r\n%s" % (what, sorted(bad), sorted(got), sorted(want), ctx))
    def check(name, flags):
        text = res.files[name].decode("utf-8", "surrogateescape")
        if flags & 1:
            f_, m_, g_, _ = parse_checked(text, bool(flags & 2))
            cmp_set(f_, set(k for k in wd if wd[k]), name + " found")
            cmp_set(m_, set(k for k in wd if not wd[k]), name + " not found")
            cmp_set(set(g_), set(wg), name + " globs")
            for k in g_:
                cmp_set(g_[k], wg[k], name + " matches of " + k)
        else:
            want = set(k for k in wd if wd[k]) | set(x for v in wg.values() for x in v)
            cmp_set(parse_plain(text, bool(flags & 2)), want, name)
    check("deps.txt", flags)
    if locs:
        check("loc.txt", 1)
    if any(k not in ("deps.txt", "loc.txt") for k in res.files):
        raise Fail("only dependency output was asked for, files %r appeared: %s" % (sorted(res.files), ctx))

PROPERTY = {
    "id": "C12",
    "rule": "tracker: a name has a character that needs escaping; document: more than two files were probed",
    "families": [
        Family("tracker", f_tracker, 40000, rule="sequences of add_dependency, add_glob, add_glob_match and writes against a model"),
        Family("document", f_document, 9000, rule="file trees with includes, imports, images and globs over include paths"),
    ],
}
