"""C08: sections nest exactly as written."""
from ..engine import Fail, Discard, Family
from ..docgen import Gen, VERSIONS, body_of, header
from ..docrun import convert, compare, drop_root_attributes, PLAIN
from ..xmltree import E, text_of

IDS = ["alpha", "b2", "c_3", "Q"]

class Error(Exception):
    pass

class Model:
    """The section structure that a sequence of events describes."""
    def __init__(self):
        self.root = E("#body")
        self.stack = [(self.root, None)]
        self.floor = 1
        self.warnings = 0
        self.depth = 1
    def level(self):
        return len(self.stack)
    def add(self, nodes):
        self.stack[-1][0].kids += nodes
    def begin(self, ident, title):
        e = E("section", {}, [E("title", {}, title)] if title else [])
        self.add([e])
        self.stack.append((e, ident))
        self.depth = max(self.depth, self.level())
    def end(self, ident):
        if self.level() <= self.floor:
            raise Error("unmatched endsect")
        if ident is not None and ident != self.stack[-1][1]:
            raise Error("wrong id")
        self.stack.pop()

class Case:
    def __init__(self, src, ver, error, nested=0):
        self.src, self.ver = src, ver
        self.model = Model()
        self.files = {}
        self.error = error          # the kind of error still to be placed
        self.placed = None
        self.seq = 0
        self.prelude = ""
        self.stats = {}
        # before 1.6 brackets in a template's body are counted whatever they are
        self.gen = Gen(src, ver, block={"heading": 2}, phrase={"escape": 0, "code": 0} if ver < 106 else None)

    def count(self, k):
        self.stats[k] = self.stats.get(k, 0) + 1
        self.src.label(k)

    def section(self):
        src, m = self.src, self.model
        ident = src.pick(IDS + (["sec-4"] if self.ver >= 107 else [])) if src.bool(0.4) else None
        if src.bool(0.12):
            title, tn = "", []
            self.count("empty title")
        elif src.bool(0.3):
            title, tn = self.gen.phrase(1, 1, 3, 2, one_line=True, ctx="lf", start=False)
        else:
            title = self.gen.plain_words()
            tn = [title]
        if title.startswith((":", "[/")):
            title, tn = "o " + title, ["o "] + tn
        # an identifier is given by the title's text when the author gave none
        m.begin(ident, tn)
        if not text_of(E("x", {}, tn)).strip() and title:
            m.stack[-1][0].info = "blank"
        return "[section%s%s%s]\n" % (":" + ident if ident else "", src.pick([" ", "  ", "\n"]) if title else src.pick(["", " "]), title)

    def endsect(self, ident=None):
        return "[endsect%s%s]\n" % (":" + ident if ident else "", self.src.pick(["", "", " "]))

    def close(self):
        m = self.model
        real = m.stack[-1][1]
        if real is not None and self.src.bool(0.5):
            self.count("endsect with id")
            m.end(real)
            return self.endsect(real)
        m.end(None)
        return self.endsect()

    def para(self):
        s, n = self.gen.phrase(1, 1, 4, 2, ctx="")
        s, n = self.gen.guard(s, n, False)
        self.model.add(n)
        return s + "\n\n"

    def events(self, depth, lo, hi, mean, balanced, inside="doc"):
        """Source text of a run of events applied to the model.  `balanced`:
        the run ends at the level at which it starts."""
        src, m = self.src, self.model
        start = m.level()
        out = ""
        for _ in src.many(lo, hi, mean):
            k = src.weighted([(5, "section"), (5, "end"), (5, "para"), (3, "heading"), (2, "block"), (2 if depth else 0, "template"),
                              (2 if depth else 0, "include"), (2 if depth and self.ver >= 106 else 0, "document"),
                              (3 if self.error else 0, "error")])
            if k == "section":
                if m.level() > 9:
                    continue
                out += self.section()
            elif k == "end":
                if m.level() > m.floor and (m.level() > start or not balanced):
                    out += self.close()
            elif k == "para":
                out += self.para()
            elif k == "heading":
                s, n = self.gen.phrase(1, 1, 3, 2, one_line=True, ctx="lf", start=False)
                lv = min(m.level() + 1, 6)
                self.model.add([E("bridgehead", {"renderas": "sect%d" % lv}, n)])
                self.count("generic heading")
                if lv == 6:
                    self.count("deep generic heading")
                out += "[%s %s]\n" % (src.pick(["heading"]), s)
            elif k == "block":
                s, n = self.gen.blocks(1, 1, 2, 1.3)
                m.add(n)
                out += s + "\n\nsep\n\n"
                m.add([E("para", {}, ["sep"])])
            elif k == "template":
                name = "t%d" % self.seq
                self.seq += 1
                floor, m.floor = m.floor, m.level()
                body = self.events(depth - 1, 0, 4, 2.5, True, "template")
                m.floor = floor
                # templates are written before the document's text
                self.prelude += "[template %s[]\n%s]\n\n" % (name, "\n" + body)
                out += "[%s]\n\n" % name
                self.count("template")
            elif k == "include":
                name = "i%d.qbk" % self.seq
                self.seq += 1
                self.count("include")
                bal = self.src.bool(0.5) or inside == "template"
                ev = self.events(depth - 1, 0, 4, 2.5, bal, inside)
                if self.ver >= 106:
                    # a file without document info, read with the same rules
                    self.files[name] = "[quickbook 1.%d]\n\n%s" % (self.ver - 100, ev)
                else:
                    self.files[name] = ev
                if not bal:
                    self.count("include that opens or closes sections")
                out += "[include %s]\n\n" % name
            elif k == "document":
                name = "d%d.qbk" % self.seq
                self.seq += 1
                self.count("included document")
                outer = self.model
                inner = self.model = Model()
                ev = self.events(depth - 1, 0, 5, 3, False, "document")
                self.finish()
                self.model = outer
                root = E("chapter", {}, [E("title", {}, ["D"])] + inner.root.kids)
                outer.warnings += inner.warnings
                outer.add([root])
                self.files[name] = "[chapter D\n[quickbook 1.%d]\n]\n\n%s" % (self.ver - 100, ev)
                out += "[include %s]\n\n" % name
                m = self.model
            elif k == "error":
                out += self.place(start, balanced, inside)
        if balanced:
            while m.level() > start:
                out += self.close()
        return out

    def place(self, start, balanced, inside):
        src, m, kind = self.src, self.model, self.error
        if kind == "stray":
            if m.level() > m.floor:
                return ""
            self.error, self.placed = None, kind
            return self.endsect(src.pick([None, "alpha"]))
        if kind == "wrong":
            if m.level() <= m.floor:
                return ""
            real = m.stack[-1][1]
            bad = src.pick([x for x in IDS + ["nothing"] if x != real])
            self.error, self.placed = None, kind
            m.end(None)
            return self.endsect(bad)
        if kind == "open template":
            self.error, self.placed = None, kind
            body = self.para() + "[section more]\n" + (self.para() if src.bool(0.5) else "")
            if src.bool(0.3):
                body += "[section in]\n[endsect]\n"
        elif kind == "closing template":
            if m.level() <= m.floor:
                return ""
            self.error, self.placed = None, kind
            body = self.para() + "[endsect]\n" + ("[section again]\n" if src.bool(0.5) else "")
        else:
            return ""
        name = "bad%d" % self.seq
        self.seq += 1
        if self.ver >= 105 and src.bool(0.3):
            # one level further in
            self.prelude += "[template %s[]\n%s]\n\n[template %so[]\n\n[%s]\n]\n\n" % (name, "\n" + body, name, name)
            name += "o"
        else:
            self.prelude += "[template %s[]\n%s]\n\n" % (name, "\n" + body)
        return "[%s]\n\n" % name

    def finish(self):
        m = self.model
        if m.level() > 1:
            m.warnings += 1
            self.count("section left open")
        del m.stack[1:]

def case(src, error):
    ver = src.pick(VERSIONS)
    c = Case(src, ver, error)
    body = c.events(3, 2, 14, 8, False)
    c.finish()
    doc = header(ver) + c.prelude + "o\n\n" + body
    c.model.root.kids.insert(0, E("para", {}, ["o"]))
    files = {n: t for n, t in c.files.items()}
    src.key = doc + repr(sorted(files.items()))
    src.sample = {"document": doc, "files": files}
    return ver, c, doc, files

def nest(t):
    for f in t:
        yield f

def f_tree(src, env):
    ver, c, doc, files = case(src, None)
    # definitions in an included file with a document info of its own can't
    # see the including document's templates before 1.6, and later can
    src.nontrivial = c.model.depth > 2 or len(c.stats) > 2
    src.label("depth %d" % min(c.model.depth, 6))
    res = convert(env, doc, files=files)
    want = c.model.root.kids
    compare(doc + "\n" + repr(files), want, res, clean=drop_root_attributes)
    warns = res.err.count(b"Missing [endsect] detected at end of file.")
    if warns != c.model.warnings:
        raise Fail("%d sections were left open at the end of a document, %d warnings were printed:\n%s\n%s\n%s" % (c.model.warnings, warns, doc, files, res.describe()))
    if c.model.warnings:
        res = convert(env, doc, files=files, args=PLAIN + ["--strict"], ok=False)
        if "o.xml" in res.files:
            raise Fail("a strict run wrote output although a section is left open:\n%s\n%s" % (doc, files))
    elif src.bool(0.2):
        pass

def f_error(src, env):
    kind = src.pick(["stray", "wrong", "open template", "closing template"])
    ver, c, doc, files = case(src, kind)
    if not c.placed:
        raise Discard("no place for the error")
    src.nontrivial = True
    src.label("error: " + kind)
    res = convert(env, doc, files=files, ok=False)
    if "o.xml" in res.files:
        raise Fail("output was written although the sections are in error:\n%s\n%s" % (doc, files))
    if b"error" not in res.err or (b"endsect" not in res.err.lower() and b"section" not in res.err):
        raise Fail("no diagnostic about sections:\n%s\n%s\n%s" % (doc, files, res.describe()))

PROPERTY = {
    "id": "C08",
    "rule": "sections nested in sections, or three kinds of section event, or a section error placed",
    "families": [
        Family("tree", f_tree, 7000, rule="nested sections or at least three kinds of section event"),
        Family("error", f_error, 5000, rule="an error about sections was placed"),
    ],
    "known": {},
}
