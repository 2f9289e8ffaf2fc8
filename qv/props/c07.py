"""C07: identifiers are unique, stable and explicit ones are kept."""
import re
from ..engine import Fail, Discard, Family
from ..docgen import Gen, VERSIONS, header
from ..docrun import convert, compare, tree
from ..xmltree import E, walk, elements

TITLES = ["Foo", "foo", "Foo Bar", "foo bar", "h", "h0", "h1", "f0", "f", "t0", "c0", "Foo1", "foo 1", "foo_0", "foo0", "foo10", "9", "09", "x.y", "a - b", "...",
          "caf\u00e9", "a very long title that goes on and on and on", "a very long title that goes on and on at last", "a very long title that ends in 123456",
          "1234567890123456789012345678901", "12345678901234567890123456789012", "T", "t", "_a", "legal", "Q", "doc", "UPPER case", "tab", "-", "foo*"]
MARKUP_TITLES = [("*Foo*", None), ("[* Foo] bar", None), ("`code`", None), ("a \\[ b", None), ("a & b", None), ("<x>", None)]
IDS = ["foo", "foo0", "h0", "x1", "foo_bar", "Foo", "A", "f0", "t", "c0", "a_very_long_title_that_goes_on_an", "explicit_identifier_longer_than_the_limit_of_32"]
DOTTED = ["t.foo", "foo.h0", "t.h0", "a.b.c", "t.foo.h0", "x-1", "t.f0"]

def make_identifier(s):
    b = s.encode()
    return "".join(chr(c).lower() if chr(c).isalnum() and c < 128 else "_" for c in b)

def normalize(s, size=32):
    s = s.lstrip("_")
    if not s:
        return "_"
    out = ""
    i = 0
    while i < len(s) and len(out) < size:
        if s[i] == "_":
            while i < len(s) and s[i] == "_":
                i += 1
            if i < len(s):
                out += "_"
        else:
            out += s[i]
            i += 1
    return out

NUMBERED, GENERATED, HEADING, SECTION, DOC, EXPLICIT, EXPLICIT_SECTION, ANCHOR = range(1, 9)

class Id:
    def __init__(self, text, cat, parent):
        self.text, self.cat, self.parent = text, cat, parent
        self.dots = text.count(".") + (parent.dots + 1 if parent else 0)
        self.order = None
        self.final = None

class Sec:
    def __init__(self, parent, old, ph, depth):
        self.parent, self.old, self.ph, self.depth = parent, old, ph, depth

class FileState:
    def __init__(self, depth, doc, old_id, override=None, override_depth=0):
        self.depth, self.doc, self.old_id, self.override, self.override_depth = depth, doc, old_id, override, override_depth

class DocState:
    def __init__(self):
        self.section, self.last_section = None, ""

class Model:
    """What ids the elements of a document ask for, in document order."""
    def __init__(self, compat):
        self.compat = compat
        self.want = []          # (tag, Id)
        self.order = []
        self.file = None
        self.used = set()

    def see(self, p):
        if p.parent and p.parent.order is None:
            self.see(p.parent)
        if p.order is None:
            p.order = len(self.order)
            self.order.append(p)

    def emit(self, tag, p):
        self.see(p)
        self.want.append((tag, p))

    def ph(self, sec):
        if sec is None:
            return None
        return self.file.override if sec.depth < self.file.override_depth else sec.ph

    def add(self, text, cat, sec="current"):
        if sec == "current":
            sec = self.file.doc.section
        if self.compat >= 106 and cat < EXPLICIT:
            text = normalize(text)
        if sec is None or self.compat >= 106:
            return Id(text, cat, self.ph(sec))
        return Id(".".join(x for x in [self.file.old_id, sec.old, text] if x), cat, None)

    def start_document(self, ident, title, include_id=""):
        old = self.file
        doc = DocState()
        doc.title = title
        name = (include_id or ident) or make_identifier(title)
        self.file = FileState((old.depth + 1) if old else 0, doc, name)
        self.stack = getattr(self, "stack", [])
        self.stack.append(old)
        if include_id or ident:
            p = self.begin(include_id or ident, EXPLICIT_SECTION)
        else:
            p = self.begin(make_identifier(title), DOC)
        return p

    def start_file(self, include_id):
        old = self.file
        self.stack.append(old)
        over, depth = old.override, old.override_depth
        old_id = old.old_id
        if self.compat < 106:
            old_id = include_id or make_identifier(old.doc.title)
        elif include_id:
            over, depth = self.add(include_id, EXPLICIT_SECTION, None), old.depth + 1
        self.file = FileState(old.depth + 1, old.doc, old_id, over, depth)

    def end_file(self):
        self.file = self.stack.pop()

    def begin(self, text, cat):
        doc = self.file.doc
        parent = doc.section
        old = ""
        if parent and self.compat < 106:
            old = ".".join(x for x in [parent.old, text] if x)
        if parent:
            doc.last_section = text
        if self.compat >= 106:
            p = self.add(text, cat, parent)
            doc.section = Sec(parent, old, p, self.file.depth)
        else:
            if self.compat >= 103:
                new = ".".join(x for x in [self.file.old_id, old] if x)
            else:
                new = (self.file.old_id + "." if parent else "") + text
            p = Id(new, cat, None)
            doc.section = Sec(parent, old, None, self.file.depth)
        return p

    def end(self):
        self.file.doc.section = self.file.doc.section.parent

    def heading(self, explicit, title, generic, selflink):
        if explicit:
            p, link = self.add(explicit, EXPLICIT), True
        elif self.compat >= 106:
            p, link = self.add(make_identifier(title), HEADING), True
        elif generic or self.compat >= 103:
            p, link = self.add(make_identifier(title), HEADING), True
        else:
            p, link = Id(self.file.doc.last_section + "." + make_identifier(title), HEADING, None), False
        if link and selflink:
            self.emit("bridgehead", self.add("h", NUMBERED))
            self.emit("phrase", p)
            self.used.add("self link")
        else:
            self.emit("bridgehead", p)

    def table(self, explicit, title):
        if explicit:
            p = self.add(explicit, EXPLICIT)
        elif title is None:
            return
        elif self.compat >= 105:
            p = self.add(make_identifier(title), GENERATED)
        else:
            p = self.add("t", NUMBERED)
        self.emit("table" if title is not None else "informaltable", p)

    def resolve(self):
        """Ids with the same number of parts are given out together: the ones
        that were chosen first, then numbers for those that clash."""
        self.clashes = 0
        by = {}
        for p in self.order:
            by.setdefault(p.dots, []).append(p)
        for dots in sorted(by):
            group = sorted(by[dots], key=lambda p: (p.cat < EXPLICIT, p.order))
            taken = {}
            for p in group:
                p.full = (p.parent.final + "." if p.parent else "") + p.text
                if p.cat > NUMBERED:
                    q = taken.setdefault(p.full, p)
                    if p.cat > q.cat:
                        taken[p.full] = p
            for p in group:
                if p.cat > NUMBERED and taken[p.full] is p:
                    p.final = p.full
                    continue
                if p.cat > NUMBERED:
                    self.clashes += 1
                head, _, base = p.full.rpartition(".")
                head = head + "." if "." in p.full else ""
                base = normalize(base, 31)
                if base[-1:].isdigit():
                    if len(base) < 31:
                        base += "_"
                    else:
                        base = base.rstrip("0123456789")
                n = 0
                while True:
                    c = head + base + str(n)
                    if len(base) + len(str(n)) > 32:
                        base = base[:-1].rstrip("0123456789")
                        n = 0
                        continue
                    n += 1
                    if c not in taken:
                        taken[c] = p
                        p.final = c
                        break

class Doc:
    def __init__(self, src, ver, compat):
        self.src, self.ver, self.compat = src, ver, compat
        self.templates = {}
        self.files = {}
        self.seq = 0
        self.nids = 0

    def title(self):
        src = self.src
        if self.compat >= 106 and src.bool(0.1):
            return src.pick(MARKUP_TITLES)[0]
        t = src.pick(TITLES)
        return t

    def explicit(self, p, dotted=True):
        src = self.src
        if not src.bool(p):
            return None
        if self.ver >= 107 and src.bool(0.15):
            return src.pick(DOTTED)
        return src.pick(IDS)

    def items(self, depth, lo, hi, mean, calls=True, sections=True):
        src = self.src
        out = []
        for _ in src.many(lo, hi, mean):
            k = src.weighted([(6 if depth and sections else 0, "section"), (6, "heading"), (4, "table"), (4, "anchor"), (3, "footnote"), (2, "para"),
                              (2 if self.ver >= 107 else 0, "code"), (3 if calls and self.templates else 0, "call"), (2 if calls and depth else 0, "include"),
                              (2 if calls and depth and self.ver >= 106 else 0, "document"), (1, "list")])
            if k == "section":
                out.append((k, self.explicit(0.35), self.title(), self.items(depth - 1, 0, 4, 2.5, calls)))
            elif k == "heading":
                out.append((k, src.pick(["heading", "h1", "h3"]), self.explicit(0.3) if self.ver >= 106 else None, self.title()))
            elif k == "table":
                t = self.title() if src.bool(0.8) else None
                e = self.explicit(0.3) if self.ver >= 105 else None
                if t and t[0] in "[<`*":
                    t = "o " + t
                if t and self.ver < 106 and "[" in t:
                    t = "tab"
                out.append((k, e, t, src.int(0, 2)))
            elif k == "anchor":
                out.append((k, src.pick(IDS + (DOTTED if self.ver >= 107 else []) + ["x.y"])))
            elif k == "code":
                out.append((k, src.int(1, 3)))
            elif k == "call":
                out.append((k, src.pick(sorted(self.templates))))
            elif k in ("include", "document"):
                name = "i%d.qbk" % self.seq
                self.seq += 1
                ident = src.pick(IDS) if self.ver >= 106 and src.bool(0.4) else ""
                own = src.pick(IDS) if k == "document" and src.bool(0.4) else ""
                t = src.pick(["T", "Foo", "other"])
                body = self.items(depth - 1, 0, 4, 2.5, False)
                if k == "include":
                    head = "[quickbook 1.%d]\n\n" % (self.ver - 100) if self.ver >= 106 and src.bool(0.8) else ""
                    if self.ver >= 106 and self.compat < self.ver and src.bool(0.4):
                        head = "[quickbook 1.%d]\n[compatibility-mode 1.%d]\n\n" % (self.ver - 100, self.compat - 100)
                else:
                    head = "[chapter %s\n[quickbook 1.%d]\n%s%s]\n\n" % (t, self.ver - 100, "[id %s]\n" % own if own else "", self.mode())
                self.files[name] = head + self.render(body)
                out.append((k, name, ident, own, t, body))
            else:
                out.append((k,))
        return out

    def mode(self):
        return "[compatibility-mode 1.%d]\n" % (self.compat - 100) if self.compat != self.ver else ""

    def render(self, items):
        o = ""
        for it in items:
            k = it[0]
            if k == "section":
                o += "[section%s %s]\n\n%s[endsect]\n\n" % (":" + it[1] if it[1] else "", it[2], self.render(it[3]))
            elif k == "heading":
                o += "[%s%s %s]\n\n" % (it[1], ":" + it[2] if it[2] else "", it[3])
            elif k == "table":
                o += "[table%s%s\n[[a][b]]\n[[k%s][v]]\n]\n\n" % (":" + it[1] if it[1] else "", " " + it[2] if it[2] is not None else "", " [footnote n]" * it[3])
            elif k == "anchor":
                o += "o [#%s] x\n\n" % it[1]
            elif k == "footnote":
                o += "o[footnote note] x\n\n"
            elif k == "para":
                o += "o\n\n"
            elif k == "list":
                o += "* one[footnote note]\n* two\n\n"
            elif k == "code":
                o += "".join("    int x%d; /*< call %d >*/\n" % (i, i) for i in range(it[1])) + "\no\n\n"
            elif k == "call":
                o += "[%s]\n\n" % it[1]
            else:
                o += "[include%s %s]\n\n" % (":" + it[2] if it[2] else "", it[1])
        return o

    def play(self, items, m):
        for it in items:
            k = it[0]
            if k == "section":
                p = m.begin(it[1] or make_identifier(it[2]), EXPLICIT_SECTION if it[1] else SECTION)
                m.emit("section", p)
                m.used.add("section")
                self.play(it[3], m)
                m.end()
            elif k == "heading":
                m.heading(it[2], it[3], it[1] == "heading", self.selflink)
            elif k == "table":
                m.table(it[1], it[2])
                for _ in range(it[3]):
                    m.emit("footnote", m.add("f", NUMBERED))
            elif k == "anchor":
                m.emit("anchor", Id(it[1], ANCHOR, None))
            elif k in ("footnote", "list"):
                m.emit("footnote", m.add("f", NUMBERED))
            elif k == "code":
                ps = [(m.add("c", NUMBERED), m.add("c", NUMBERED)) for _ in range(it[1])]
                for a, b in ps:
                    m.see(a)
                    m.see(b)
                for a, b in ps:
                    m.emit("co", a)
                for a, b in ps:
                    m.emit("callout", b)
            elif k == "call":
                m.used.add("template")
                self.play(self.templates[it[1]], m)
            elif k == "include":
                m.used.add("include")
                m.start_file(it[2])
                self.play(it[5], m)
                m.end_file()
            elif k == "document":
                m.used.add("document")
                p = m.start_document(it[3], it[4], it[2])
                m.emit("chapter", p)
                self.play(it[5], m)
                m.end_file()

IDTAGS = None

def f_model(src, env, times=1):
    ver = src.pick(VERSIONS)
    compat = ver
    if ver >= 106 and src.bool(0.25):
        compat = src.pick([v for v in [101, 102, 103, 104, 105, 106] if v < ver])
    d = Doc(src, ver, compat)
    d.selflink = src.bool(0.5)
    pre = ""
    for i in range(src.int(0, 2)):
        body = d.items(1, 1, 3, 2, calls=False)
        d.templates["tpl%d" % i] = body
        pre += "[template tpl%d[]\n\n%s]\n\n" % (i, d.render(body))
    items = d.items(3, 1, 10, 6) if times == 1 else d.items(2, 1, 5, 3) * times
    own = src.pick(IDS) if src.bool(0.3) else ""
    title = src.pick(["T", "Foo", "a very long title that goes on and on and on", "x - y"])
    doc = "[article %s\n[quickbook 1.%d]\n%s%s]\n\n%s%s" % (title, ver - 100, "[id %s]\n" % own if own else "", d.mode(), pre, d.render(items))
    m = Model(compat)
    root = m.start_document(own, title)
    m.emit("article", root)
    d.play(items, m)
    if times > 1 and len(m.want) > 2500:
        raise Discard("too long")
    m.resolve()
    src.key = doc + repr(sorted(d.files.items()))
    src.sample = {"document": doc, "files": d.files}
    if times > 1:
        src.sample = "%d ids; %d times: %s" % (len(m.want), times, doc[:len(doc) // times + 200])
        src.label("more than %d ids" % (1000 if len(m.want) > 1000 else 100 if len(m.want) > 100 else 0))
    src.nontrivial = len(m.want) > (100 if times > 1 else 3) and (m.clashes > 0 or "section" in m.used)
    if m.clashes: src.label("clashes resolved")
    if compat != ver: src.label("compatibility mode")
    for u in sorted(m.used): src.label(u)
    pretty = src.bool(0.3)
    args = ([] if pretty else ["--no-pretty-print"]) + ([] if d.selflink else ["--no-self-linked-headers"])
    res = convert(env, doc, files=d.files, args=args)
    rt = tree(doc, res)
    got = [(e.tag, e.attrs["id"]) for e in elements(rt) if "id" in e.attrs]
    show = "%s\n%s\n%s" % (doc, "\n".join("--- %s\n%s" % x for x in sorted(d.files.items())), res.files["o.xml"].decode("utf-8", "replace"))
    check_unique(rt, show)
    want = [(t, p.final) for t, p in m.want]
    for i in range(max(len(got), len(want))):
        g = got[i] if i < len(got) else None
        w = want[i] if i < len(want) else None
        if g != w:
            raise Fail("id %d: expected %r, got %r\n%s" % (i, w, g, show))
    # self links
    for e in elements(rt, "bridgehead"):
        links = [k for k in e.kids if isinstance(k, E) and k.tag == "link"]
        phr = [k for k in e.kids if isinstance(k, E) and k.tag == "phrase" and "id" in k.attrs]
        if phr and (not links or links[0].attrs["linkend"] != phr[0].attrs["id"]):
            raise Fail("a heading's self link points elsewhere\n" + show)
    if d.selflink:
        for e in elements(rt, "section"):
            t = [k for k in e.kids if isinstance(k, E) and k.tag == "title"]
            links = [k for x in t for k in x.kids if isinstance(k, E) and k.tag == "link"]
            if compat >= 103 and t and (not links or links[0].attrs["linkend"] != e.attrs["id"]):
                raise Fail("a section title's self link doesn't point at the section\n" + show)

def f_many(src, env):
    """Hundreds of ids, most of them numbered."""
    f_model(src, env, src.int(20, 250))

def check_unique(rt, show):
    seen = {}
    for e in elements(rt):
        if "id" in e.attrs:
            i = e.attrs["id"]
            if i in seen:
                raise Fail("the id %r is given to a %s and a %s\n%s" % (i, seen[i], e.tag, show))
            if i.startswith("$"):
                raise Fail("the placeholder %r was not replaced\n%s" % (i, show))
            seen[i] = e.tag
    return seen

def f_documents(src, env):
    """Uniqueness over documents with every kind of construct."""
    ver = src.pick(VERSIONS)
    g = Gen(src, ver, block={"heading": 8, "table": 6}, phrase={"footnote": 5, "link": 3})
    d = Doc(src, ver, ver)
    d.selflink = True
    s = header(ver)
    for _ in src.many(1, 4, 2.5):
        b, _n = g.blocks(2, 1, 4, 2)
        s += b + "\n\nsep\n\n" + d.render(d.items(1, 0, 3, 2, calls=False)) + "o\n\n"
    src.key = src.sample = s
    src.nontrivial = True
    res = convert(env, s, args=[] if src.bool(0.5) else ["--no-pretty-print"])
    rt = tree(s, res)
    check_unique(rt, s + "\n" + res.files["o.xml"].decode("utf-8", "replace"))
    # the same document again, and printed otherwise: the same ids
    res2 = convert(env, s, args=["--no-pretty-print", "--output-checked-locations", "loc"] if src.bool(0.5) else ["--linewidth", "40"])
    a = [(e.tag, e.attrs["id"]) for e in elements(rt) if "id" in e.attrs]
    b = [(e.tag, e.attrs["id"]) for e in elements(tree(s, res2)) if "id" in e.attrs]
    if a != b:
        raise Fail("the ids depend on the way the output is printed:\n%s" % s)

MACRO_FOOTNOTE = "[quickbook 1.7]\n[article T]\n\n[def __f__ a[footnote x]b]\n\n__f__ __f__\n"

def known_macro_footnote(env):
    rt = tree(MACRO_FOOTNOTE, convert(env, MACRO_FOOTNOTE))
    try:
        check_unique(rt, "")
    except Fail:
        return True
    return False

PROPERTY = {
    "id": "C07",
    "rule": "at least four ids, in sections or with clashes to resolve",
    "families": [
        Family("model", f_model, 6000, rule="headings, sections, tables, anchors, footnotes, callouts, template calls, includes and documents with clashing titles and ids: every id, in order, against a reference assignment"),
        Family("many", f_many, 250, rule="the same elements up to 250 times over: hundreds of ids, most of them numbered"),
        Family("documents", f_documents, 2500, rule="ids of generated documents with all constructs are distinct and independent of printing options"),
    ],
    "known": {"macro-footnote": known_macro_footnote},
}
