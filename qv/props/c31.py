"""C31: callouts and footnotes are numbered and linked one to one."""
import re
from urllib.parse import urljoin, unquote
from ..engine import Fail, Discard, Family
from ..docgen import Gen, header
from ..docrun import convert, tree, show_files, drop_root_attributes
from ..xmltree import E, walk, elements, text_of, merge, canon, diff
from .. import htmlmodel as hm
from .c19 import Html, document, html_of, split_page, esc

# -- callouts ----------------------------------------------------------------
class Callouts:
    def __init__(self, src, ver):
        self.src, self.ver = src, ver
        self.gen = Gen(src, ver, phrase={"code": 2, "comment": 0, "mid": 2, "alone": 2, "footnote": 0})
        self.serial = 0
        self.total = 0
        self.scoped = []        # names defined in callouts
        self.templates = ""     # definitions
        self.mode = "c++"       # the document's

    def new(self, p):
        self.serial += 1
        return "%s%dz" % (p, self.serial)

    def body(self, lang, depth):
        """The text of a callout -> (source, [expected])"""
        src = self.src
        for _ in range(20):
            k = src.weighted([(6, "phrase"), (2, "word"), (1, "empty"), (1, "blocks"), (1, "defs"), (2 if depth and self.ver >= 107 else 0, "nested")])
            if k == "empty":
                return "", []
            if k == "word":
                w = self.new("w")
                return w, [("p", [w])]
            if k == "nested":
                return self.template(depth - 1)
            if k == "blocks" and lang != "python":
                a, b = self.new("w"), self.new("w")
                return "%s\n\n%s" % (a, b), [("p", [a]), ("p", [b])]
            if k == "defs":
                if lang == "python": continue
                a, m, t, x = self.new("w"), self.new("m"), self.new("t"), self.new("x")
                self.scoped += [m, t]
                return "%s\n\n[def %s %s]\n[template %s %s]\n\n%s [%s]\n\n" % (a, m, x, t, x, m, t), [("p", [a]), ("p", ["%s %s" % (x, x)])]
            # links and the like included
            self.gen.words = [self.new("w")]
            s, n = self.gen.phrase(1, 1, 4, 2, one_line=True, start="hard")
            s, n = "w " + s, merge(["w "] + n)
            if re.search("#[\\[\\]`<=-]|//|/\\*|\"\"\"", s) or "*/" in s or ">>" in s or s.rstrip().endswith((">", "*")) or "\n" in s or "``" in s or "<" == s[:1] or "[[" in s:
                continue
            return s, [("p", n)]
        return "w", [("p", ["w"])]

    def template(self, depth):
        """A template that holds code with callouts of its own."""
        name = self.new("t")
        s, want = self.code(depth, "fence", "c++")
        w = self.new("w")
        # the definition is by itself, so that it's not in a callout
        self.templates += "[template %s\n%s\n\n[!c++]\n%s\n]\n\n" % (name, w, s)
        return "[%s]" % name, [("p", [w])] + want

    def code(self, depth, style, lang, callouts=True):
        """-> (source of the block, [("code", text, bodies), ("list", bodies)])"""
        lines, text, bodies = self.lines(depth, lang, callouts, style)
        if style == "indent":
            ind = " " * self.src.int(1, 4)
            s = "".join((ind + l if l else "") + "\n" for l in "\n".join(lines).split("\n"))
        else:
            f = self.src.pick(["``", "```"]) if style == "fence" else "```"
            s = f + "\n" + "\n".join(lines) + "\n" + f + "\n"
        return s, [("code", text)] + ([("list", bodies)] if bodies else [])

    def lines(self, depth, lang, callouts=True, style=""):
        src = self.src
        lines, text, bodies = [], "", []
        def callout(kind):
            b, w = self.body(lang, depth)
            sp = src.pick(["", " ", "  "])
            if lang == "python":
                s = ("#<< " if kind == "line" else "#< ") + b
            elif kind == "line":
                s = "/*<<" + sp + b + src.pick(["", " "]) + ">>*/"
            else:
                s = "/*<" + (sp or (" " if b[:1] in "<" else "")) + b + src.pick(["", " "]) + ">*/"
            if callouts:
                self.total += 1
                bodies.append(w)
                return s, "\x01" if kind != "line" else "\x03" if lang == "python" else "\x02"
            return s, re.sub("[ \\t]", "", s)
        for i in src.many(1, 5, 2.5):
            l = ""
            if i:
                text += "\n"
            if i and style != "indent" and src.bool(0.2):
                lines.append("")
                text += "\n"
            if src.bool(0.2):
                s, t = callout("line")
                lines.append(s)
                text += t + "\n"
            indent = " " * (src.int(0, 3) if i else 0)
            l = indent
            for _ in src.many(1, 4, 2):
                w = src.pick([self.new("v"), "int", "+", "x", "( )", "12"])
                l += w + " "
                text += w.replace(" ", "")
                if src.bool(0.25) and lang != "python":
                    if src.bool(0.2):
                        l += "/* plain */ "
                        text += "/*plain*/"
                    else:
                        s, t = callout("inline")
                        l += s + src.pick(["", " "])
                        text += t
            if src.bool(0.4):
                s, t = callout(src.pick(["inline", "inline", "line"]))
                l += s
                text += t
            lines.append(l.rstrip())
        return lines, text, bodies

def shown(nodes):
    """What an expected or real body holds: paragraphs, code, lists."""
    out = []
    for k in nodes:
        if isinstance(k, str):
            if k.strip():
                out.append(("p", [k]))
        elif k.tag in ("para", "simpara"):
            # code breaks a paragraph up
            run = []
            for x in k.kids:
                if isinstance(x, E) and x.tag in ("programlisting", "calloutlist", "footnote", "para", "simpara"):
                    if any(not isinstance(r, str) or r.strip() for r in run):
                        out.append(("p", run))
                    out += shown([x])
                    run = []
                else:
                    run.append(x)
            if any(not isinstance(r, str) or r.strip() for r in run):
                out.append(("p", run))
        elif k.tag == "programlisting":
            t = ""
            for x in walk(k):
                if isinstance(x, str):
                    t += re.sub("[ \\t]", "", x)
                elif x.tag == "co":
                    t += "\x01"
            out.append(("code", t))
        elif k.tag == "footnote":
            out.append(("footnote", shown(k.kids)))
        elif k.tag == "calloutlist":
            out.append(("list", [shown(c.kids) for c in k.kids if isinstance(c, E)]))
        else:
            out += shown(k.kids)
    return out

def code_text(t):
    """The lines of code without other white space.  A callout that stands
    for a line takes the white space after it, or the end of its line in
    Python."""
    return re.sub("\x02\\s*", "\x01", re.sub("\x03\n?", "\x01", t)).strip("\n")

def same(want, got, where):
    if len(want) != len(got):
        return "%s: %d pieces instead of %d\nexpected %r\ngot %r" % (where, len(got), len(want), want, got)
    for i, (a, b) in enumerate(zip(want, got)):
        w = "%s.%d" % (where, i)
        if a[0] != b[0]:
            return "%s: %r instead of %r" % (w, b, a)
        if a[0] == "code":
            if code_text(a[1]) != b[1].strip("\n"):
                return "%s: code %r instead of %r" % (w, b[1], a[1])
        elif a[0] == "footnote":
            d = same(a[1], b[1], w + " footnote")
            if d:
                return d
        elif a[0] == "list":
            if len(a[1]) != len(b[1]):
                return "%s: %d callouts instead of %d: %r" % (w, len(b[1]), len(a[1]), b[1])
            for j, (x, y) in enumerate(zip(a[1], b[1])):
                d = same(x, y, "%s callout %d" % (w, j + 1))
                if d:
                    return d
        else:
            d = diff(trim(a[1]), trim(b[1]))
            if d:
                return "%s: %s" % (w, d)

def trim(nodes):
    c = canon(E("p", {}, nodes), False)
    return c

def pairs(root, fail):
    """Marks and entries refer to each other; the list of a mark follows it."""
    ids = {}
    for e in elements(root):
        if "id" in e.attrs:
            if e.attrs["id"] in ids:
                fail("the id %r is used twice" % e.attrs["id"])
            ids[e.attrs["id"]] = e
    marks = [e for e in elements(root) if e.tag == "co"]
    entries = [e for e in elements(root) if e.tag == "callout"]
    if len(marks) != len(entries):
        fail("%d marks, %d callouts" % (len(marks), len(entries)))
    seen = set()
    for m in marks:
        t = ids.get(m.attrs.get("linkends"))
        if t is None or t.tag != "callout" or t.attrs.get("arearefs") != m.attrs.get("id") or not m.attrs.get("id"):
            fail("a mark %r leads to %r" % (m, t))
        seen.add(id(t))
    if len(seen) != len(entries):
        fail("two marks have the same callout")
    # entries are in the order of their marks
    for l in elements(root):
        if l.tag == "calloutlist":
            order = [c.attrs["arearefs"] for c in l.kids if isinstance(c, E)]
            pos = {m.attrs["id"]: i for i, m in enumerate(marks)}
            if sorted(order, key=lambda x: pos[x]) != order:
                fail("the callouts %r are not in the order of their marks" % order)
    return marks, ids

def html_pairs(root, pages, fail):
    """In the pages each mark shows the number of its callout and leads to it."""
    body = {}
    for u, b in pages.items():
        for e in walk(b):
            if isinstance(e, E) and "id" in e.attrs:
                body.setdefault(e.attrs["id"], []).append((u, e))
    numbers = {}
    for l in elements(root):
        if l.tag == "calloutlist":
            for n, c in enumerate([k for k in l.kids if isinstance(k, E)]):
                numbers[c.attrs["id"]] = n + 1
    found = []
    for u, b in pages.items():
        for e in walk(b):
            if isinstance(e, E) and e.tag == "pre":
                for a in walk(e):
                    if isinstance(a, E) and a.tag == "a" and re.match("^\\(\\d+\\)$", text_of(a)):
                        found.append((urljoin(u, a.attrs.get("href", "")), text_of(a)))
    want = []
    for m in elements(root):
        if m.tag == "co":
            i = m.attrs["linkends"]
            at = body.get(i, [])
            if len(at) != 1:
                fail("the callout %s is on %d elements" % (i, len(at)))
            u, e = at[0]
            n = "(%d)" % numbers[i]
            want.append((u + "#" + i, n))
            t = text_of(e).strip()
            if not t.startswith(n):
                fail("the callout %s should be numbered %s: %r" % (i, n, t[:60]))
    if sorted(found) != sorted(want):
        fail("the marks are %r, expected %r" % (found, want))

def html_pages(src, env, files, fail, chunked):
    if chunked:
        args = ["m.qbk", "--output-format", "html", "--output-dir", "o", "--no-pretty-print"]
        prefix = "o/"
    else:
        args = ["m.qbk", "--output-format", "onehtml", "--output-file", "o.html", "--no-pretty-print"]
        prefix = ""
    r = env.run(dict(files), args)
    if r.kind != "exit" or r.code != 0:
        fail("the HTML run failed: %s" % r.describe())
    out = {}
    for k in r.files:
        head, body = split_page(html_of(r, k, fail), fail)
        out[hm.BASE + k] = body
    return out

def f_callouts(src, env):
    ver = src.pick([107, 107, 107, 106, 105, 104, 103])
    c = Callouts(src, ver)
    on = ver >= 107
    doc, want, files = "", [], {}
    for i in src.many(1, 5, 2.5):
        kind = src.weighted([(4, "block"), (4, "snippet"), (2 if on else 0, "admon"), (1 if on else 0, "table"), (2 if on else 0, "template"), (1, "teletype"), (1, "python"), (1, "section"),
                             (1 if on else 0, "phrase"), (1, "inline"), (1 if on else 0, "list"), (1 if on else 0, "footnote")])
        w = c.new("s")
        doc += w + "\n\n"
        want.append(("p", [w]))
        if kind == "block":
            s, x = c.code(1, src.pick(["indent", "fence"]) if ver >= 106 else "indent", "c++", on)
            doc += s + "\n"
            want += x
        elif kind == "python":
            s, x = c.code(1, "indent", "python", on)
            doc += "[python]\n\n" + s + "\n[c++]\n\n"
            want += x
        elif kind == "teletype":
            s, x = c.code(1, "indent", "c++", False)
            doc += "[teletype]\n\n" + s + "\n[c++]\n\n"
            want += x
        elif kind == "admon":
            s, x = c.code(1, "fence", "c++")
            doc += "[%s\n%s]\n\n" % (src.pick(["note", "warning", ":"]), s)
            want += x
        elif kind == "table":
            s, x = c.code(1, "fence", "c++")
            doc += "[table [[\n%s]]]\n\n" % s
            want += x
        elif kind == "list":
            s, x = c.code(1, "fence", "c++")
            w = c.new("w")
            doc += "* %s\n\n%s\n" % (w, re.sub("(?m)^(?=.)", "  ", s))
            want += [("p", [w])] + x
        elif kind == "phrase":
            s, x = c.code(1, "", "c++")
            a, b = c.new("w"), c.new("w")
            doc += "%s %s%s\n\n" % (a, s, b)
            want += [("p", [a])] + x + [("p", [b])]
        elif kind == "inline":
            # not a block: a comment like any other
            a, b, n = c.new("w"), c.new("w"), c.new("v")
            s = src.pick(["%s /*< note >*/ x", "%s /*<< note >>*/ x", "x /*< %s >*/"]) % n
            doc += "%s `%s` %s\n\n" % (a, s, b)
            h = lambda x: E("phrase", {"role": "identifier"}, [x])
            com = lambda x: E("phrase", {"role": "comment"}, [x])
            code = []
            for y in re.findall("/\\*.*\\*/|\\w+| ", s):
                code.append(com(y) if y[0] == "/" else y if y == " " else h(y))
            want.append(("p", [a + " ", E("code", {}, code), " " + b]))
        elif kind == "footnote":
            s, x = c.code(1, "fence", "c++")
            a, b, d = c.new("w"), c.new("w"), c.new("w")
            doc += "%s [footnote %s\n%s] %s\n\n" % (a, b, s, d)
            want += [("p", [a]), ("footnote", [("p", [b])] + x), ("p", [d])]
        elif kind == "template":
            s, x = c.template(1)
            n = src.pick([1, 1, 2, 3])
            for _ in range(n):
                doc += s + "\n\n"
                want += x
            c.total += (n - 1) * marks_in(x)
        elif kind == "section":
            doc += "[section:%s %s]\n\n[endsect]\n\n" % (c.new("i"), "T")
        else:
            py = src.bool(0.3)
            name = "x%d.%s" % (i, "py" if py else "cpp")
            pool = {}
            source, x = snippet_file(c, py, pool)
            files[name] = source
            doc += "[import %s]\n\n" % name
            for n in src.many(1, 4, 2):
                k = src.pick(sorted(pool))
                doc += "[%s]\n\n" % k
                if n:
                    c.total += marks_in(pool[k])
                    pool[k]
                else:
                    c.total += marks_in(pool[k])
                want += pool[k]
    if c.scoped:
        # definitions end with the callout
        doc += "end %s\n\n" % " ".join("%s [%s]" % (x, x) for x in c.scoped)
        want.append(("p", ["end %s" % " ".join("%s [%s]" % (x, x) for x in c.scoped)]))
    doc = header(ver, extra="\n[id t]") + c.templates + doc
    files["m.qbk"] = doc
    src.key = repr(files)
    src.sample = show_files(files)
    n = marks_in(want)
    src.nontrivial = n >= 2
    src.label("%d callouts" % min(n, 9))
    fs = dict(files)
    del fs["m.qbk"]
    res = convert(env, doc, files=fs)
    def fail(msg):
        raise Fail("%s\n%s\n----- output\n%s" % (msg, src.sample, res.files["o.xml"].decode("utf-8", "replace")))
    root = tree(src.sample, res)
    got = shown([k for k in flat(root) if not (isinstance(k, E) and (k.tag == "title" or k.tag.endswith("info")))])
    d = same(want, got, "the document")
    if d:
        fail(d)
    marks, ids = pairs(root, fail)
    if len(marks) != n:
        fail("%d callouts, expected %d" % (len(marks), n))
    if n and src.bool(0.5):
        pages = html_pages(src, env, files, fail, src.bool(0.5))
        html_pairs(root, pages, fail)

def flat(root):
    """Sections are passed over."""
    out = []
    for k in root.kids:
        if isinstance(k, E) and k.tag == "section":
            out += [x for x in flat(k) if not (isinstance(x, E) and x.tag == "title")]
        else:
            out.append(k)
    return out

def marks_in(x):
    return sum(1 + marks_in(b) for k in x if k[0] == "list" for b in k[1]) + sum(marks_in(k[1]) for k in x if k[0] == "footnote")

def snippet_file(c, py, pool):
    """A file with snippets, some of several pieces or inside each other."""
    src = c.src
    out = ""
    lang = "python" if py else "c++"
    mark = "#" if py else "//"
    for _ in src.many(1, 3, 1.6):
        name = c.new("n")
        body, want = piece(c, lang, mark)
        inner = None
        if src.bool(0.3):
            inner = c.new("n")
            b2, w2 = piece(c, lang, mark)
            body += "%s[%s\n%s%s]\n" % (mark, inner, b2, mark)
            b3, w3 = piece(c, lang, mark)
            body += b3
            pool[inner] = gather(w2)
            want = want + w2 + w3
        out += "outside\n%s[%s\n%s%s]\n" % (mark, name, body, mark)
        pool[name] = gather(want)
    return out, None

def piece(c, lang, mark):
    """Code and text -> (source, [("code", text, bodies) | ("p", ...)])"""
    src = c.src
    out, want = "", []
    for i in src.many(1, 3, 1.5):
        lines, text, bodies = c.lines(1, lang)
        out += "\n".join(lines) + "\n"
        want.append(("codewith", text, bodies))
        if src.bool(0.4) or lang == "python":
            w = c.new("q")
            out += "%s` %s\n" % (mark, w)
            want.append(("p", [w]))
    return out, want

def gather(items):
    """Adjacent code is one block; the callouts are listed after everything."""
    out, bodies = [], []
    for k in items:
        if k[0] == "codewith":
            bodies = bodies + k[2]
            if out and out[-1][0] == "code":
                out[-1] = ("code", out[-1][1] + "\n" + k[1])
            else:
                out.append(("code", k[1]))
        else:
            out.append(k)
    return out + ([("list", bodies)] if bodies else [])

# -- footnotes ---------------------------------------------------------------
class Notes(Html):
    def __init__(self, src, ver, raw=False, **kw):
        Html.__init__(self, src, ver, False, phrase={"footnote": 9, "link": 1, "url": 1, "anchor": 1, "image": 0})
        self.notes = []
        self.taken = []
    def p_footnote(self, depth, ctx, ol):
        n = len(self.notes)
        self.notes.append(None)
        c = ctx + ("f" if self.src.bool(0.7) else "")
        self.notes[n] = n
        if self.src.bool(0.3):
            s = "note%dz" % n
        elif self.ver >= 106 and self.src.bool(0.2) and not ol and "a" not in ctx:
            s = "note%dz\n\nmore%dz" % (n, n)
        else:
            s = "note%dz " % n + self.phrase(depth - 1, 1, 3, 2, ol, c, start=False)[0]
        a = ""
        if self.src.bool(0.12) and "l" not in ctx and len(self.taken) < 5:
            # the id that HTML would use for a note
            a = "[#footnote-%d]" % (len(self.taken) + 1)
            self.taken.append(a)
            self.src.label("anchor named as a note")
        return "%sat%dz[footnote %s]" % (a, n, s), [], False
    def section_title(self):
        return "w " + self.phrase(1, 1, 3, 2, one_line=True, ctx="tl", start="hard")[0]

def own_text(e):
    """Without the text of nested footnotes."""
    if isinstance(e, str):
        return e
    return "".join(own_text(k) for k in e.kids if not (isinstance(k, E) and k.tag == "footnote"))

def before(root):
    """footnote -> the text that comes before it, outside of other notes"""
    out = []
    def go(e, acc):
        for k in e.kids:
            if isinstance(k, str):
                acc[0] += k
            elif k.tag == "footnote":
                out.append((k, acc[0]))
                go(k, [""])
            else:
                go(k, acc)
    go(root, [""])
    return out

def f_footnotes(src, env):
    ver = src.pick([107, 107, 107, 106, 105, 103])
    from . import c19
    g = Notes(src, ver)
    s = "[quickbook 1.%d]\n[%s T\n  [id t]]\n\n" % (ver - 100, src.pick(["article", "book"]))
    s += g.blocks(2, 1, 4, 2)[0] + "\n\n"
    s += g.sections(2, "t")
    fs = {}
    if ver >= 106 and src.bool(0.4):
        for i in src.many(1, 3, 2):
            s += c19.chapter(src, g, fs, 1, "t", 0)
    fs["m.qbk"] = s
    fs = {k: g.finish(v) for k, v in fs.items()}
    src.key = repr(fs)
    src.sample = show_files(fs)
    src.nontrivial = len(g.notes) >= 3
    others = dict(fs)
    del others["m.qbk"]
    res = env.run(dict(fs), ["m.qbk", "--output-file", "o.xml", "--no-pretty-print", "--no-self-linked-headers"])
    if res.kind != "exit":
        raise Fail("the run failed:\n%s\n%s" % (src.sample, res.describe()))
    if res.code:
        raise Discard("the document has errors")
    def fail(msg):
        raise Fail("%s\n%s\n----- output\n%s" % (msg, src.sample, res.files["o.xml"].decode("utf-8", "replace")))
    root = tree(src.sample, res)
    notes = before(root)
    notes = [(f, t) for f, t in notes if "license" not in text_of(f)]
    texts = "\n".join(fs.values())
    expected = sorted(set(int(x) for x in re.findall("at(\\d+)z\\[footnote", texts)))
    seen, ids = [], set()
    for f, t in notes:
        m = re.search("at(\\d+)z\\s*$", t)
        own = re.findall("note(\\d+)z", own_text(f))
        if not m:
            if re.search("footnote|title note|callout", own_text(f)) or not own:
                continue
            fail("a footnote follows %r" % t[-30:])
        if own != [m.group(1)]:
            fail("the footnote at %s has the text %r" % (m.group(1), own_text(f)))
        seen.append(int(m.group(1)))
    if sorted(seen) != expected:
        fail("the footnotes %r, expected %r" % (sorted(seen), expected))
    for e in elements(root):
        if e.tag == "footnote":
            i = e.attrs.get("id")
            if not i or i in ids:
                fail("a footnote has the id %r" % i)
            ids.add(i)
    # HTML
    chunked = src.bool(0.5)
    pages = html_pages(src, env, fs, fail, chunked)
    src.label("%d pages" % min(len(pages), 5))
    total = sum(1 for e in elements(root) if e.tag == "footnote")
    numbers, refs_seen = set(), 0
    def dump():
        return "\n".join("-- %s" % u for u in pages)
    for u, b in pages.items():
        at = {}
        for e in walk(b):
            if isinstance(e, E) and "id" in e.attrs:
                at.setdefault(e.attrs["id"], []).append(e)
        refs = [e for e in walk(b) if isinstance(e, E) and e.tag == "a" and [x for x in e.kids if isinstance(x, E) and x.tag == "sup" and x.attrs.get("class") == "footnote"]]
        bodies = [e for e in walk(b) if isinstance(e, E) and e.attrs.get("class") == "footnote" and e.tag == "div"]
        if len(refs) != len(bodies):
            fail("%d references to %d footnotes in %s" % (len(refs), len(bodies), u))
        used = set()
        for r in refs:
            refs_seen += 1
            num = text_of(r).strip()
            if not re.match("^\\[\\d+\\]$", num) or num in numbers:
                fail("a reference has the number %r" % num)
            numbers.add(num)
            if r.attrs.get("id") not in ids:
                fail("the reference %s has the id %r" % (num, r.attrs.get("id")))
            h = urljoin(u, r.attrs.get("href", ""))
            if not h.startswith(u + "#"):
                fail("the reference %s leads to %r" % (num, h))
            t = at.get(h.split("#", 1)[1], [])
            if len(t) != 1 or t[0] not in bodies or id(t[0]) in used:
                fail("the reference %s leads to %r" % (num, t))
            used.add(id(t[0]))
            body = t[0]
            links = [e for e in walk(body) if isinstance(e, E) and e.tag == "a" and text_of(e).strip() == num]
            if len(links) != 1 or urljoin(u, links[0].attrs.get("href", "")) != u + "#" + r.attrs["id"] or len(at[r.attrs["id"]]) != 1:
                fail("the footnote %s has the links back %r" % (num, links))
            f = [e for e in elements(root) if e.tag == "footnote" and e.attrs["id"] == r.attrs["id"]][0]
            # the note's own words, with those of links
            a = re.findall("(?:note|more)\\d+z", own_text(f))
            z = re.findall("(?:note|more)\\d+z", text_of(body))
            if a != z:
                fail("the footnote %s holds %r, expected %r" % (num, z, a))
        # in the order of the text, notes of notes after the others
        nums = [int(text_of(r).strip()[1:-1]) for r in refs]
        if nums != sorted(nums):
            fail("the references are numbered %r" % nums)
    if refs_seen != total:
        fail("%d references to %d footnotes" % (refs_seen, total))

PROPERTY = {
    "id": "C31",
    "rule": "two callouts, three footnotes",
    "families": [
        Family("callouts", f_callouts, 4000, rule="code blocks in every context, snippets and templates with callouts whose texts are generated (some with code of their own): marks, entries, order, texts, ids, and numbers in HTML"),
        Family("footnotes", f_footnotes, 2400, rule="footnotes with known texts after known words all over generated documents, some inside others: BoostBook, and references, notes and links back in HTML"),
    ],
}
