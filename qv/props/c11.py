"""C11: including and importing files is scoped as documented."""
import posixpath, re
from ..engine import Fail, Discard, Family
from ..docgen import VERSIONS, header
from ..docrun import show_files
from ..xmltree import E, parse_xml, text_of, walk, NotWellFormed

DIRS = ["", "d1", "d1/d2", "d3", "inc1", "inc2", "inc1/d4"]
MODES = ["c++", "python", "teletype"]
CODE = {"c++": "[int|keyword] [def|identifier]", "python": "[int|identifier] [def|keyword]", "teletype": "int def"}

class Scope:
    def __init__(self, parent, lexical=None):
        self.parent, self.names = parent, {}

class TooBig(Exception):
    pass

class Model:
    """What the documentation says happens, over a tree of parsed files."""
    def __init__(self, files, include_path, main):
        self.files, self.include_path = files, include_path
        self.macros = {}
        self.scope = Scope(None)
        self.errors = []
        self.out = []
        self.mode = "c++"
        self.ver = 0
        self.imported = False
        self.depth = 0
        self.steps = 0
        self.path = (main, posixpath.basename(main), 0)
        self.stats = set()

    def run(self):
        self.file(self.path[0], False)
        return self.out

    def file(self, real, nested):
        f = self.files[real]
        self.steps += 1
        if self.steps > 60 or self.depth > 12:
            raise TooBig()
        doc = False
        if f["doc"]:
            doc = not nested or self.ver >= 106
        if f["ver"] and (f["before"] or doc):
            new = f["ver"]
        else:
            new = 0
        if f["doc"] and self.ver >= 106:
            self.mode = "c++"
        if new: self.ver = new
        elif doc: self.ver = 101
        if f["doc"] and nested and doc:
            self.out.append(("begin", f["doc"]))
        for st in f["body"]:
            self.statement(st, real)
        if f["doc"] and nested and doc:
            self.out.append(("end",))

    def lookup(self, scope, name):
        while scope:
            if name in scope.names:
                return scope.names[name], scope
            scope = scope.parent
        return None, None

    def scope_of(self, t):
        """Where a template's body is looked up: where it was defined, or
        before 1.5 where it is used."""
        if t[2] >= 105: return t[1]
        self.stats.add("dynamic")
        return self.scope

    def expand(self, parts, scope, depth=0):
        out = []
        for p in parts:
            if p[0] == "w": out.append(p[1])
            elif p[0] == "m": out.append(self.macros.get(p[1], p[1]))
            elif p[0] == "fn": out.append(self.path[1])
            elif p[0] == "cond":
                if p[1] in self.macros: out.append("y" + p[1].lower())
            elif p[0] == "code": out.append(CODE[self.mode])
            elif p[0] == "t":
                t, where = self.lookup(scope, p[1])
                if t is None:
                    out.append("[%s]" % p[1])
                else:
                    self.stats.add("call")
                    out.append(self.expand(t[0], self.scope_of(t), depth + 1))
        return " ".join(x for x in out if x)

    def statement(self, st, real):
        k = st[0]
        self.steps += 0.02
        if k == "probe":
            self.out.append(("para", ("p%d " % st[1] + self.expand(st[2], self.scope)).strip()))
        elif k == "def":
            if st[1] in self.macros and self.ver < 106:
                return
            self.macros = dict(self.macros)
            self.macros[st[1]] = self.expand(st[2], self.scope)
        elif k == "template":
            if st[1] in self.scope.names:
                self.errors.append("Template Redefinition: " + st[1])
                return
            self.scope.names[st[1]] = (st[2], self.scope, self.ver)
        elif k == "mode":
            self.mode = st[1]
        elif k == "snip":
            t, where = self.lookup(self.scope, st[1])
            if t is None:
                self.out.append(("para", "[%s]" % st[1]))
            else:
                self.stats.add("snippet")
                self.out.append(("para", self.expand(t[0], self.scope_of(t))))
        else:
            self.load(k, st[1])

    def resolve(self, text):
        real, abstract, offset = self.path
        if "*" in text:
            self.stats.add("glob")
            found = set()
            rx = re.compile(text.replace(".", "\\.").replace("*", "[^/]*") + r"\Z")
            for d, ab, n in [(posixpath.dirname(real), posixpath.dirname(abstract), offset)] + [(d, "", i + 1) for i, d in enumerate(self.include_path)]:
                for f in self.files:
                    rel = posixpath.relpath(f, d or ".")
                    if rx.match(rel):
                        found.add((tuple(posixpath.join(ab, rel).split("/")), n, posixpath.join(d, rel)))
            return [(posixpath.normpath(f), "/".join(ab), n) for ab, n, f in sorted(found)]
        if self.ver < 106 and "\\" in text:
            self.stats.add("backslash")
            text = text.replace("\\", "/")
        if text.startswith("@CWD@/"):
            self.stats.add("absolute")
            return [(posixpath.normpath(text[6:]), text, 0)]
        cand = posixpath.normpath(posixpath.join(posixpath.dirname(real), text))
        if cand in self.files:
            return [(cand, posixpath.join(posixpath.dirname(abstract), text), offset)]
        for i, d in enumerate(self.include_path):
            cand = posixpath.normpath(posixpath.join(d, text))
            if cand in self.files:
                self.stats.add("searched")
                return [(cand, text, i + 1)]
        self.errors.append("Unable to find file: " + text)
        return []

    def load(self, kind, text):
        for path in self.resolve(text):
            self.load_one(kind, path)

    def source(self, kind, real):
        self.stats.add(kind + " source")
        saved = self.scope
        if kind == "include": self.scope = Scope(self.scope)
        items = self.files[real]["source"]
        for name, parts in items:
            if name:
                if name in self.scope.names: self.errors.append("Template Redefinition: " + name)
                else: self.scope.names[name] = (parts, self.scope, self.ver)
        if kind == "include":
            for name, parts in items:
                if not name: self.out.append(("para", self.expand(parts, self.scope)))
        self.scope = saved

    def load_one(self, kind, path):
        real = path[0]
        if self.ver >= 106:
            if self.imported and kind == "include":
                self.stats.add("include in import")
                return
        elif kind == "import":
            # a source file
            if "source" in self.files[real]: self.source(kind, real)
            return
        if "source" in self.files[real]:
            if self.ver < 106:
                raise TooBig("a source file as quickbook")
            self.source(kind, real)
            return
        self.stats.add(kind)
        keep_mode = self.ver < 106
        saved = (self.ver, self.imported, self.path, self.mode, self.macros, self.scope, self.out)
        if kind == "import": self.out = []
        else:
            if self.ver >= 106: self.scope = Scope(self.scope)
        self.path = path
        self.imported = kind == "import"
        self.depth += 1
        inner_macros = None
        self.file(real, True)
        self.depth -= 1
        inner_mode, inner_macros = self.mode, self.macros
        self.ver, self.imported, self.path, self.mode, self.macros, self.scope, self.out = saved
        if kind == "import": self.macros = inner_macros
        if keep_mode: self.mode = inner_mode

def render(parts):
    out = []
    for p in parts:
        if p[0] == "w" or p[0] == "m": out.append(p[1])
        elif p[0] == "fn": out.append("__FILENAME__")
        elif p[0] == "cond": out.append("[? %s y%s]" % (p[1], p[1].lower()))
        elif p[0] == "code": out.append("`int def`")
        else: out.append("[%s]" % p[1])
    return " ".join(out)

class Tree:
    def __init__(self, src):
        self.src, self.seq = src, 0
        self.files, self.text = {}, {}

    def word(self):
        self.seq += 1
        return "v%d" % self.seq

    def parts(self, nested, calls, lo=1, hi=5, mean=2.5, probe=False):
        src, out = self.src, []
        for _ in src.many(lo, hi, mean):
            k = src.weighted([(3, "w"), (4, "m"), (4 if calls else 0, "t"), (3 if probe else 0, "fn"), (2 if probe else 0, "cond"), (3 if probe and probe != "text" else 0, "code")])
            if k == "w": out.append(("w", self.word()))
            elif k == "m": out.append(("m", "M%d" % src.draw(2)))
            elif k == "t": out.append(("t", "t%d" % src.draw(calls - 1)))
            elif k == "fn": out.append(("fn",))
            elif k == "cond": out.append(("cond", "M%d" % src.draw(2)))
            else: out.append(("code",))
        return out

    def build(self, modern):
        src = self.src
        n = src.int(2, 7)
        globs = modern and src.bool(0.2)
        base = 107 if globs else src.pick([107, 107, 106, 106, 105]) if modern else src.pick([101, 103, 104, 105])
        names = []
        for i in range(n):
            d = src.pick(DIRS) if i else src.pick(["", "", "", "d1"])
            b = "m" if i == 0 else src.weighted([(4, "a" + "z" * i), (2, "same"), (1, "x-y"), (1, "b.c"), (1, "e&f")])
            e = ".qbk" if i < 2 else src.weighted([(5, ".qbk"), (2, ".cpp"), (1, ".py")])
            p = posixpath.join(d, b + e)
            if p in names:
                p = posixpath.join(d, "a%s%s" % ("z" * i, e))
            names.append(p)
        self.sources = any(not p.endswith(".qbk") for p in names)
        for i, p in enumerate(names):
            f = {"doc": None, "ver": 0, "before": False, "body": []}
            if p.endswith(".cpp") or p.endswith(".py"):
                f["source"] = [(src.weighted([(3, "s%d" % src.draw(2)), (2, "")]), [("w", self.word())] + self.parts(False, 4, 0, 4, 2, "text")) for _ in src.many(1, 4, 2)]
                self.files[p] = f
                self.text[p] = self.render_source(f["source"], p.endswith(".py"))
                continue
            if i == 0:
                f.update(doc="T", ver=base, before=src.bool(0.5))
            else:
                if src.bool(0.3):
                    f["doc"] = "doc%d" % i
                if src.bool(0.35) or (globs and f["doc"]):
                    f["ver"] = 107 if globs else src.pick([107, 106, 105] if modern else [104, 103, 101, 105])
                    f["before"] = not f["doc"] or src.bool(0.5)
            for _ in src.many(1, 8, 4.5):
                k = src.weighted([(6, "probe"), (3, "def"), (3, "template"), (2, "mode"), (3 if self.sources else 0, "snip"), ((6 if i == 0 else 4) if i + 1 < n else 0, "include"), ((5 if i == 0 else 3) if i + 1 < n else 0, "import")])
                if k == "probe":
                    self.seq += 1
                    st = ("probe", self.seq, self.parts(False, 4, 1, 7, 4, True))
                elif k == "def": st = ("def", "M%d" % src.draw(2), self.parts(True, 0, 0, 2, 1))
                elif k == "template":
                    t = src.draw(3)
                    st = ("template", "t%d" % t, [("w", self.word())] + self.parts(True, t if modern else 0, 1, 3, 1.5))
                elif k == "mode": st = ("mode", src.pick(MODES))
                elif k == "snip": st = ("snip", "s%d" % src.draw(2))
                else:
                    j = src.int(i + 1, n - 1)
                    target = names[j]
                    rel = posixpath.relpath(target, posixpath.dirname(p) or ".")
                    how = src.weighted([(50, "rel"), (30, "base"), (10, "dot"), (2, "missing"), (10, "inc")])
                    if how == "rel": t = rel
                    elif how == "base": t = posixpath.basename(target)
                    elif how == "inc": t = target[5:] if target.startswith("inc") else rel
                    elif how == "dot": t = "./" + rel
                    else: t = "none.qbk"
                    if how == "base" and src.bool(0.8):
                        # only if it can be found
                        near = posixpath.normpath(posixpath.join(posixpath.dirname(p), t))
                        if near not in names and posixpath.join("inc1", t) not in names and posixpath.join("inc2", t) not in names:
                            t = rel
                    if globs and src.bool(0.25):
                        t = src.pick(["", "", "d1/", "../"] if posixpath.dirname(p) else ["", "", "d1/", "d1/d2/", "inc1/"]) + "a%s*.qbk" % ("z" * (i + 1))
                    elif src.bool(0.07):
                        t = "@CWD@/" + target
                    elif f["ver"] and f["ver"] < 106 and src.bool(0.15):
                        # an error in later versions
                        t = t.replace("/", "\\")
                    st = (k, t)
                f["body"].append(st)
            self.files[p] = f
            self.text[p] = self.render(f)
        return names

    def render_source(self, items, py):
        o = "int x;\n"
        for name, parts in items:
            text = ('"""`\n%s\n"""\n' if py else "/*`\n%s\n*/\n") % render(parts)
            if name: text = ("#[%s\n%s#]\n" if py else "//[%s\n%s//]\n") % (name, text)
            o += text + "y = 1;\n"
        return o

    def render(self, f):
        o = ""
        v = "[quickbook 1.%d]\n" % (f["ver"] - 100) if f["ver"] else ""
        if f["before"]: o += v
        if f["doc"]:
            o += "[article %s\n%s]\n" % (f["doc"], "" if f["before"] else v)
        o += "\n"
        for st in f["body"]:
            k = st[0]
            if k == "probe": o += "p%d %s\n\n" % (st[1], render(st[2]))
            elif k == "def": o += "[def %s %s]\n\n" % (st[1], render(st[2]))
            elif k == "template": o += "[template %s %s]\n\n" % (st[1], render(st[2]))
            elif k == "mode" or k == "snip": o += "[%s]\n\n" % st[1]
            else: o += "[%s %s]\n\n" % (k, st[1])
        return o

def flat(n):
    if isinstance(n, str):
        return n
    if n.tag == "phrase" and "role" in n.attrs:
        return "[%s|%s]" % ("".join(flat(k) for k in n.kids), n.attrs["role"])
    return "".join(flat(k) for k in n.kids)

def actual(root):
    out = []
    def visit(n):
        for k in n.kids:
            if isinstance(k, str):
                if k.strip():
                    raise Fail("text outside of paragraphs: %r" % k)
                continue
            if k.tag == "para":
                t = " ".join(flat(k).split())
                if t:
                    out.append(("para", t))
            elif k.tag == "article":
                t = [x for x in k.kids if isinstance(x, E) and x.tag == "title"]
                out.append(("begin", text_of(t[0]) if t else None))
                visit(k)
                out.append(("end",))
            elif k.tag in ("title", "articleinfo"):
                pass
            else:
                raise Fail("unexpected element %s" % k.tag)
    visit(root)
    return out

def f_trees(src, env):
    modern = src.bool(0.7)
    t = Tree(src)
    names = t.build(modern)
    main = names[0]
    incs = src.pick([[], ["inc1"], ["inc1", "inc2"], ["inc2", "inc1"], ["inc2", "d3"]])
    m = Model(t.files, incs, main)
    # a missing file is an error even where the content is not used
    try:
        want = m.run()
    except TooBig:
        raise Discard("too big")
    args = [main, "--output-file", "o.xml"]
    for d in incs:
        args += src.pick([["-I", d], ["--include-path", d]])
    if src.bool(0.5): args.append("--no-pretty-print")
    files = dict(t.text)
    for d in DIRS[1:]:
        files[d] = None
    src.key = repr(sorted(t.text.items())) + repr(incs)
    src.sample = {"files": t.text, "args": args}
    src.nontrivial = bool(m.stats & {"include", "import", "include source", "import source"}) and len(want) > 2
    for s in m.stats: src.label(s)
    res = env.run(files, args, subst=True)
    where = "%s\n%s\n%s" % (args, show_files(t.text), res.describe())
    if res.kind != "exit" or res.code not in (0, 1):
        raise Fail("the run failed: " + where)
    err = res.err.decode("utf-8", "replace")
    if m.errors:
        src.label("error")
        if res.code != 1:
            raise Fail("accepted although %s: %s" % (m.errors, where))
        if m.errors[0] not in err:
            raise Fail("no diagnostic %r: %s" % (m.errors[0], where))
        return
    if res.code:
        raise Fail("a correct tree was rejected: " + where)
    root, _ = parse_xml(res.files["o.xml"].replace(res.cwd.encode(), b"@CWD@"))
    got = actual(root)
    if got != want:
        i = next((i for i in range(min(len(got), len(want))) if got[i] != want[i]), min(len(got), len(want)))
        raise Fail("item %d: expected %r, got %r: %s\n%s" % (i, want[i:i + 1], got[i:i + 1], where, res.files["o.xml"].decode("utf-8", "replace")))

PROPERTY = {
    "id": "C11",
    "rule": "files were included or imported and more than two paragraphs appear",
    "families": [
        Family("trees", f_trees, 10500, rule="trees of up to seven files over seven directories including and importing each other by relative and searched paths, with macros, templates, conditionals, source modes, versions and __FILENAME__ probed everywhere; compared with a model"),
    ],
}
