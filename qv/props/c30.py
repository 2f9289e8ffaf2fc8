"""C30: links, images, anchors and xincludes carry the author's targets."""
import posixpath
import re
from ..engine import Fail, Discard, Family
from ..docgen import Gen, header, body_of, pct, REFS
from ..docrun import convert, tree, show_files
from ..xmltree import E, walk, elements, text_of, merge, canon, diff
from . import c23

VERS = [107, 107, 107, 106, 106, 105, 104, 103, 101]
ASCII = "abcXYZ0189-_.~!*'()?/:&=#%+,;@$\"<>{}|^`\\[]"
OTHER = "\u00e9\u6f22\U0001f600\u00a0\u2028\u0301"

class Target:
    """A target text and its spelling in a version of the language."""
    def __init__(self, src, ver, macros=()):
        self.src, self.ver = src, ver
    def make(self, lo=1, hi=12, mean=5, spaces=False, brackets=True, pool=ASCII, plain=False):
        src = self.src
        text, s = "", ""
        for i in src.many(lo, hi, mean):
            c = src.pick(src.weighted([(5, "abcXYZ0189"), (3, pool), (1, OTHER), (1 if spaces else 0, " ")]))
            if c in OTHER and plain:
                c = "q"
            if self.ver < 106:
                # as it stands: brackets end it, comments too
                if c in "[]`\\" or c in "'" and text.endswith("'") or c == "/" and text.endswith("["):
                    c = "z"
                if c == " " and (not text or text[-1] == " "):
                    c = "z"
                text += c
                s += c
                continue
            k = src.weighted([(5, "plain"), (1, "escape"), (1, "unicode"), (1, "nothing")])
            if c == " ":
                if not text or text[-1] == " ":
                    c = "z"
                elif k == "unicode":
                    s += "\\u0020"
                    text += c
                    continue
                text += c
                s += c
                continue
            text += c
            if c in "[]\\`'" and k != "unicode" or k == "escape" and c in ASCII and not c.isalnum():
                s += "\\" + c
            elif k == "unicode":
                s += "\\u%04x" % ord(c) if ord(c) < 0x10000 and src.bool(0.7) else "\\U%08x" % ord(c)
            else:
                s += c
            if k == "nothing":
                s += "\\ "
        if text.endswith(" "):
            text += "z"
            s += "z"
        return text, s

def desc(src, gen, ver):
    """-> (source after the target, nodes or None for the target itself)"""
    k = src.weighted([(3, "phrase"), (2, "none"), (1, "space"), (1, "comment" if ver >= 103 else "none")])
    if k == "none":
        return "", None
    if k == "space":
        return src.pick([" ", "  ", "\n"]), None
    if k == "comment":
        return " [/ nothing]", None
    s, n = gen.phrase(1, 1, 4, 2, ctx="lf", start="hard")
    return src.pick([" ", " ", "  ", "\n"]) + s, n

KINDS = ["@", "@", "link", "link"] + sorted(REFS)

def f_links(src, env):
    ver = src.pick(VERS)
    gen = Gen(src, ver)
    t = Target(src, ver)
    paras, want, bad = [], [], 0
    macro = ""
    for i in src.many(1, 5, 2.5):
        kind = src.pick(KINDS)
        if kind == "link":
            if ver >= 107:
                text = s = src.text(list("abcXYZ019_.-"), 1, 8, 4)
                if src.bool(0.2):
                    s = "".join("\\u%04x" % ord(c) if src.bool(0.3) else c for c in s)
            else:
                text, s = t.make(pool="_.-:/+<>&\"")
        elif kind == "@":
            if src.bool(0.4):
                p = src.pick(["http://a.b/", "mailto:a@b", "../x/", "boost:/libs/", "#", "?"])
                a, b = t.make()
                text, s = p + a, p + b
            else:
                text, s = t.make()
        else:
            text, s = t.make()
        if ver == 107 and src.bool(0.15) and kind != "link":
            # a template in the target
            macro = "[template tq[] t&q]\n"
            text, s = text + "t&q", s + "[tq]"
        tail, nodes = desc(src, gen, ver)
        sp = src.pick(["", "", " ", " ", "  ", "\n", " [/c] ", "[/c]"]) if kind == "@" else src.pick([" ", " ", "  ", "\n", " [/c [d]] "])
        pre, post = "p%dz" % i, "q%dz" % i
        paras.append(pre + " [" + kind + sp + s + tail + "] " + post)
        if kind == "@":
            text = pct(text)
            tag, attrs = "ulink", {"url": text}
        elif kind == "link":
            tag, attrs = "link", {"linkend": text}
        else:
            tag, attrs = REFS[kind], {"alt": text}
        want.append(E("para", {}, [pre + " ", E(tag, attrs, nodes if nodes else [text]), " " + post]))
    doc = header(ver) + (macro + "\n" if macro else "") + "\n\n".join(paras) + "\n"
    src.key = doc
    src.sample = doc
    src.nontrivial = len(want) >= 2
    src.label("1.%d" % (ver - 100))
    res = convert(env, doc)
    root = tree(doc, res)
    got = [k for k in body_of(root) if isinstance(k, E)]
    d = diff(canon(E("#", {}, want), True), canon(E("#", {}, got), True))
    if d:
        raise Fail("%s\n----- document\n%s\n----- output\n%s" % (d, doc, res.files["o.xml"].decode("utf-8", "replace")))
    # exactly, attributes and texts alike
    def exact(n):
        return [(e.tag, sorted(e.attrs.items())) for e in walk(n) if isinstance(e, E) and e.tag in ("ulink", "link") + tuple(REFS.values())]
    a, b = exact(E("#", {}, want)), exact(E("#", {}, got))
    if a != b:
        raise Fail("targets %r, expected %r\n%s" % (b, a, doc))

BAD_IDS = ["$x", "a b"[:1] + "/b", "a:b", "a,b", "\u00e9", "a+b", "a?b", "a#", "a&b", "a<b", "\\[x\\]", "a\\\\b", "\\u0020x", "a\\u00a0"]

def f_bad(src, env):
    """Targets that can't be."""
    ver = src.pick([107, 107, 106])
    k = src.pick(["link", "#", "section", "heading", "table"]) if ver >= 107 else "link"
    bad = src.pick(BAD_IDS) if ver >= 107 else src.pick(["[x]y", "a[b", "a[b]", "a[/ b]["])
    if ver < 107 and "[/" in bad:
        bad = "a[b"
    base = {"link": "x [link %s y]", "#": "[#%s] y", "section": "[section:%s T]\n\n[endsect]", "heading": "[heading:%s T]", "table": "[table:%s T\n[[a]]\n]"}[k] % bad
    if k in ("section", "heading", "table") and "\\[" in bad:
        raise Discard("the title starts there")
    kind = src.pick(["plain", "nested", "after"])
    if kind == "nested" and k != "section":
        base = "[note\n" + base + "\n]"
    before = src.pick(["", "para\n\n", "* a\n* b\n\n"])
    doc = header(ver) + before + base + "\n\nend\n"
    src.key = src.sample = doc
    src.nontrivial = True
    res = convert(env, doc, ok=False)
    line = doc[:doc.index(bad)].count("\n") + 1
    if not re.search(b"m\\.qbk:%d: error:" % line, res.err):
        raise Fail("no error on line %d\n%s\n%s" % (line, doc, res.describe()))

# -- images ------------------------------------------------------------------
NAMES = ["width", "height", "align", "scale", "contentwidth", "contentdepth", "format", "Xy", "_a", "depth", "valign", "alt", "alt"]

def f_images(src, env):
    ver = src.pick([107, 107, 106, 106, 105, 105, 104, 103])
    t = Target(src, ver)
    paras, want, files = [], [], {}
    args = []
    loc = "html/"
    if src.bool(0.3):
        loc = src.pick(["pics/", "a/b/", "./"])
        args = ["--image-location", loc.rstrip("/") or "."]
    elif src.bool(0.2):
        loc = "html/"
    dup = 0
    svgs = {}
    for i in src.many(1, 4, 2):
        # the path
        stem_pool = "abXY01_-.~!()+,;@=&\"<>{}|^" if ver >= 105 else "abXY01_-.~!()+,;@=&\"<>"
        text, s = t.make(1, 8, 4, spaces=ver >= 105, pool=stem_pool)
        text, s = [re.sub("[\\\\/]", "", text)] + [s]
        if "\\\\" in s or "/" in s or "u002f" in s.lower() or "u005c" in s.lower() or "0000005c" in s.lower() or "0000002f" in s.lower():
            text, s = "plain", "plain"
        if text[:1] in ".~" or text.endswith(" "):
            text, s = "x" + text, "x" + s
        stem = text
        ext = src.pick(["png", "png", "jpg", "gif", "svg", "svg", "svg", "SVG", ""])
        if ext:
            text, s = text + "." + ext, s + "." + ext
        elif "." in text:
            stem, ext = text.rsplit(".", 1)
        d = src.pick(["", "", "d/", "../", "a.b/"])
        if d == "../" and not loc.startswith("a/"):
            d = "d/"
        text, s = d + text, d + s
        attrs = {}
        svg = None
        at = posixpath.normpath(loc + text)
        if at in svgs:
            svg = svgs[at]
        elif ext == "svg" and src.bool(0.7):
            svg = {}
            tag = "<svg"
            for k in src.shuffled(["width", "height", "stroke-width", "xmlns", "line-height", "viewBox"])[:src.int(0, 6)]:
                v = src.pick(["10", "100px", "50%", "2.5in", "7"]) + ("" if k in ("width", "height") else " width=")
                q = src.pick(["\"", "\"", "'"])
                tag += src.pick([" ", "\n", "  "]) + k + src.pick(["=", "=", " = "]) + q + v + q
                svg[k] = v
            files[loc + "keep"] = ""
            files[at] = src.pick(["", "<?xml version=\"1.0\" width=\"9\"?>\n", "<!-- height=\"3\" -->"]) + tag + src.pick([">", "/>", " >"]) + src.pick(["<g width=\"11\" height=\"12\"/>", ""]) + "</svg>"
        svgs[at] = svg
        alt = None
        s = "[$" + src.pick(["", "", " ", " ", "  ", "\t", " [/c] "]) + s
        if ver >= 105:
            for _ in src.many(0, 4, 1.2):
                n = src.pick(NAMES)
                v, vs = t.make(0, 8, 4, spaces=True)
                if ver < 106:
                    v = vs = vs.replace("\\", "").replace("[", "")
                s += src.pick([" ", "  ", ""]) if not s.endswith("]") and False else " "
                s += "[" + n + (" " + vs if vs else src.pick(["", " "])) + "]"
                if n in attrs or n == "alt" and alt is not None:
                    dup += 1
                elif n == "alt":
                    alt = v
                else:
                    attrs[n] = v
        s += "]"
        attrs["fileref"] = text
        if ext == "svg":
            attrs.setdefault("format", "SVG")
            if svg:
                if "width" in svg:
                    attrs.setdefault("contentwidth", svg["width"])
                if "height" in svg:
                    attrs.setdefault("contentdepth", svg["height"])
        if alt is None and ver < 106:
            alt = stem
        block = src.bool(0.3)
        el = E("inlinemediaobject", {}, [E("imageobject", {}, [E("imagedata", attrs)])] + ([E("textobject", {}, [E("phrase", {}, [alt] if alt else [])])] if alt is not None else []))
        if block:
            paras.append(s)
            want.append(E("para", {}, [el]))
        else:
            paras.append("p%dz %s q%dz" % (i, s, i))
            want.append(E("para", {}, ["p%dz " % i, el, " q%dz" % i]))
    doc = header(ver) + "\n\n".join(paras) + "\n"
    files["m.qbk"] = doc
    src.key = repr((files, args))
    src.sample = show_files(files)
    src.nontrivial = len(want) >= 2 or any(len(list(walk(w))) > 5 for w in want)
    res = env.run(files, ["m.qbk", "--output-file", "o.xml", "--no-pretty-print"] + args)
    def fail(msg):
        raise Fail("%s\n%s\n%s\n----- output\n%s\n%s" % (msg, args, src.sample, res.files.get("o.xml", b"").decode("utf-8", "replace"), res.describe()))
    if res.kind != "exit" or res.code != 0:
        fail("the run failed")
    root = tree(doc, res)
    got = [k for k in body_of(root) if isinstance(k, E)]
    d = diff(canon(E("#", {}, want), True), canon(E("#", {}, got), True))
    if d:
        fail(d)
    if res.err.count(b"Duplicate image attribute") != dup:
        fail("%d warnings about attributes given twice, expected %d" % (res.err.count(b"Duplicate image attribute"), dup))

# -- anchors -----------------------------------------------------------------
class Anchors(Gen):
    def __init__(self, src, ver):
        Gen.__init__(self, src, ver, phrase={"anchor": 8, "footnote": 2, "link": 2, "word": 20})
        self.n = 0
        self.words_n = 0
        self.files = {}
        self.bw["anchors"] = 6
    def word(self):
        self.words_n += 1
        return "w%dz" % self.words_n
    def ident(self):
        self.n += 1
        return "an%dz" % self.n
    def p_anchor(self, depth, ctx, ol):
        a = self.ident()
        return "[#" + a + "]" + self.word(), [], True
    def b_anchors(self, depth, ctx, inlist, nested):
        if inlist or "a" in ctx:
            return self.b_para(depth, ctx, inlist, nested)
        s = "[#%s]" % self.ident()
        if self.src.bool(0.3):
            s += self.src.pick(["", "\n", "\n\n"]) + "[#%s]" % self.ident()
        # what it belongs to may follow directly
        return "\n\n" + s + "\n\n" + (self.word() if self.src.bool(0.6) else ""), []
    def code_line(self):
        return self.word() + " + 1"
    def sections(self, depth):
        s = ""
        for _ in self.src.many(0, 3, 1.2):
            if self.src.bool(0.5):
                s += "[#%s]\n" % self.ident()
            s += "[section:%s %s]\n\n" % (self.ident().replace("an", "sec"), self.word() + (" [#%s]%s" % (self.ident(), self.word()) if self.src.bool(0.3) else ""))
            if self.src.bool(0.8):
                s += self.blocks(2, 1, 3, 1.6)[0] + "\n\n"
            if depth:
                s += self.sections(depth - 1)
            if self.ver >= 106 and self.src.bool(0.15):
                # a document of its own
                name = "i%d.qbk" % len(self.files)
                t = header(self.ver, title="I") + self.blocks(2, 1, 2, 1.3)[0] + "\n\n"
                if self.src.bool():
                    t += "[#%s]\n" % self.ident()
                self.files[name] = t
                s += "[include %s]\n\n" % name
                self.src.label("included document")
            if self.src.bool(0.2):
                s += "[#%s]\n\n" % self.ident()
            s += "[endsect]\n\n"
        return s

SCAN = re.compile("\\[#(an\\d+z)\\]|(w\\d+z)|\\[(endsect)\\]")

def f_anchors(src, env):
    ver = src.pick([107, 107, 106, 106, 105, 103])
    g = Anchors(src, ver)
    doc = header(ver, extra="\n[id t]") + g.blocks(2, 1, 4, 2.5)[0] + "\n\n" + g.sections(1)
    if src.bool(0.3):
        doc += "[#%s]\n" % g.ident()
    unclosed = 0
    while src.bool(0.15) and unclosed < 3:
        # sections that the end of the document closes
        unclosed += 1
        doc += "\n[section:u%d w%dz]\n\n" % (unclosed, 7000 + unclosed)
        if src.bool(0.5):
            doc += g.blocks(1, 1, 2, 1)[0] + "\n\n"
        if src.bool(0.6):
            doc += "[#%s]\n" % g.ident()
    # the whole text as it is read, with the ends of included documents
    whole = re.sub("\\[include (i\\d+\\.qbk)\\]", lambda m: g.files[m.group(1)] + "[endsect]", doc) + "[endsect]" * unclosed
    src.key = src.sample = doc + ("\n" + show_files(g.files) if g.files else "")
    res = convert(env, doc, files=g.files)
    root = tree(doc, res)
    doc = src.sample
    # the end of a section counts as a word: what is before it is inside
    want = [m.group(1) or m.group(2) or "w end" for m in SCAN.finditer(whole)]
    def fail(msg):
        raise Fail("%s\n----- document\n%s\n----- output\n%s" % (msg, doc, res.files["o.xml"].decode("utf-8", "replace")))
    got = []
    def go(e):
        for k in e.kids:
            if isinstance(k, str):
                got.extend(re.findall("w\\d+z", k))
            else:
                if k.tag == "anchor":
                    got.append(k.attrs.get("id"))
                    if e.tag == "programlisting" and re.match("\\s*w\\d+z \\+ 1", text_of(e)):
                        fail("the anchor %s is in the code" % k.attrs.get("id"))
                go(k)
                if k.tag in ("section", "article"):
                    got.append("w end")
    kids = [k for k in root.kids if isinstance(k, E) and not k.tag.endswith("info")]
    go(E("#", {}, kids))
    n = sum(1 for x in want if x.startswith("an"))
    src.nontrivial = n >= 3
    for a in set(x for x in want if x.startswith("an")):
        if got.count(a) != 1:
            fail("the anchor %s appears %d times" % (a, got.count(a)))
    # heading links and the like repeat no words
    if [x for x in got if x.startswith("w")] != [x for x in want if x.startswith("w")]:
        fail("the words differ")
    # an anchor has the words before and after it that it has in the source
    if group(got) != group(want):
        a, b = group(want), group(got)
        for x in a:
            if a[x] != b.get(x):
                fail("the anchor %s is between %r and %r, expected %r" % (x, b[x][0], b[x][1], a[x]))

def group(seq):
    """anchor -> the words around it; neighbouring anchors may swap"""
    out, prev, open_ = {}, None, []
    for x in seq:
        if x.startswith("w"):
            for a in open_:
                out[a] = (prev, x)
            prev, open_ = x, []
        else:
            open_.append(x)
    for a in open_:
        out[a] = (prev, None)
    return out

PROPERTY = {
    "id": "C30",
    "rule": "two links or images, three anchors, or an included file",
    "families": [
        Family("links", f_links, 8000, rule="links and references of every kind and version with generated targets, escapes, templates in targets, and descriptions"),
        Family("bad", f_bad, 800, rule="ids that aren't valid"),
        Family("images", f_images, 5000, rule="images with generated paths, attributes and alt texts, svg files with sizes"),
        Family("anchors", f_anchors, 5000, rule="anchors everywhere in generated documents: each once, between the words it is between in the source"),
        Family("xinclude", c23.f_xinclude, 2000, rule="xincludes from documents in a directory tree, output elsewhere"),
    ],
}
