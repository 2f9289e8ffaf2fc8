"""C16: pretty printing changes only insignificant white space."""
import re
from ..engine import Fail, Discard, Family
from ..driver import pack, unpack
from ..docrun import show_files
from ..soup import document

BLOCK = set("""author blockquote bridgehead callout calloutlist caution copyright entry important informaltable itemizedlist legalnotice listitem note orderedlist para
row section simpara table tbody textobject tgroup thead tip variablelist varlistentry warning xml xi:include""".split())
for _d in "book article library chapter part appendix preface qandadiv qandaset reference set".split():
    BLOCK |= {_d, _d + "info", _d + "purpose"}
HBLOCK = set("""div p blockquote address h1 h2 h3 h4 h5 h6 ul ol li dl dt dd table tr th td tbody thead form fieldset hr noscript html body""".split())
PRE, POST = "<!--quickbook-escape-prefix-->", "<!--quickbook-escape-postfix-->"

# ---------------------------------------------------------------- the reading

TAG = re.compile(r'<(/?)([A-Za-z0-9_:]+)((?:\s+[^\s=>]+\s*=\s*(?:"[^"]*"|\'[^\']*\'))*)\s*(/?)>|<[?!](?:"[^"]*"|[^">])*>', re.S)
ATTR = re.compile(r'([^\s=>]+)\s*=\s*("[^"]*"|\'[^\']*\')', re.S)

def tokens(s, html, escapes):
    """Significant parts: tags, words, single blanks, code and (before
    printing) raw passages.  Blanks next to block tags or code are dropped."""
    s = s.replace("\r\n", "\n").replace("\r", "\n")
    verb = "pre" if html else "programlisting"
    block = HBLOCK if html else BLOCK
    out, i = [], 0
    while i < len(s):
        if escapes and s.startswith(PRE, i):
            j = s.find(POST, i)
            raw = s[i + len(PRE):j]
            i = j + len(POST)
            out.append(("raw", raw.strip()))
        elif s[i] == "<":
            if s.startswith("<!--", i):
                j = s.find("-->", i) + 3
                out.append(("comment", s[i + 4:j - 3]))
                i = j
                continue
            m = TAG.match(s, i)
            if not m:
                raise Fail("cannot read the tag at %r" % s[i:i + 80])
            if not m.group(2):
                out.append(("decl", " ".join(s[i:m.end()].split())))
                i = m.end()
                continue
            name = m.group(2)
            if name == verb and not m.group(1) and not m.group(4) and (html or s.startswith("<programlisting>", i)):
                depth, j = 1, m.end()
                while depth:
                    k = re.compile("<(/?)%s[ >]" % verb).search(s, j)
                    if not k:
                        raise Fail("no end for the code at %r" % s[i:i + 80])
                    depth += -1 if k.group(1) else 1
                    j = k.end()
                out.append(("verb", re.sub(" +(?=\n)", "", s[i:j])))
                i = j
                continue
            out.append((("block" if name in block else "flow"), m.group(1) + name + m.group(4), tuple(ATTR.findall(m.group(3)))))
            i = m.end()
        else:
            j = s.find("<", i)
            j = len(s) if j < 0 else j
            for w in re.findall(r"\s+|\S+", s[i:j]):
                out.append(("sp",) if w.isspace() else ("w", w))
            i = j
    res = []
    for n, t in enumerate(out):
        if t == ("sp",):
            if not res or n + 1 == len(out) or res[-1][0] in ("block", "verb", "decl", "sp") or out[n + 1][0] in ("block", "verb", "decl"):
                continue
        res.append(t)
    return res

def flat(toks):
    """The same without blanks, as one string, for documents with raw text."""
    out = []
    for t in toks:
        if t[0] == "raw":
            out.append(re.sub(r"\s+", "", t[1]))
        elif t[0] == "sp":
            continue
        elif t[0] in ("block", "flow"):
            out.append("<%s %s>" % (t[1], t[2]))
        else:
            out.append(re.sub(r"\s+", "", t[1]))
    return "".join(out)

def first_difference(a, b):
    for i in range(max(len(a), len(b))):
        x, y = a[i:i + 1], b[i:i + 1]
        if x != y:
            return "part %d: expected %r, got %r (after %r)" % (i, x, y, a[max(0, i - 3):i])

def pp(env, text, indent, width, html):
    res = env.unit("post_process", text, str(indent), str(width), "1" if html else "0")
    return res

# ---------------------------------------------------------------- generation

TEXTS = ["a", "b,", "word", "&amp;", "&lt;x&gt;", "&quot;q&quot;", "it's", "\u65e5\u672c", "x/", "]]", "?", "--", "averyveryverylongwordthatcannotbebroken" * 2, "\u00a0", "=", "#1"]
AV = ["", "v", "two words", "  a   b  ", "x&amp;y", "a/b", "it's", "&quot;", "&gt;", "a\nb", "/", "very long value with many many words in it to go past the end of the line for sure " * 2]
FLOW = ["emphasis", "phrase", "link", "ulink", "code", "literal", "title", "footnote", "inlinemediaobject", "imageobject", "sbr", "co", "term", "colspec", "blurb", "sidebar", "holder", "year"]
HFLOW = ["em", "strong", "a", "span", "code", "br", "img", "tt", "q", "caption"]
CODE = ["int x;", "  ", "\n", "\n\n", "<phrase role=\"keyword\">int</phrase>", "&lt;", " ", "\t", "<co id=\"c1\" linkends=\"c2\"/>", "\"", "'", "a", "   x", "}", "// e\n"]
HCODE = ["int x;", "  ", "\n", "\n\n", "<span class=\"keyword\">int</span>", "&lt;", " ", "\t", "\"", "'", "a", "   x", "}"]
RAWS = ["<b>x</b>", "&amp;", "", " ", "<!-- c -->", "<x id=\"$0\"/>", "a  b\n  c", "\"", "it's \" odd", "<programlisting lang=\"c\">\n  x\n</programlisting>", "<para>", "</para>", "  y  "]

class Tree:
    """Pieces (text, kind) where kind says what may be done to white space:
    's' significant blank, 'o' optional blank, '' none."""
    def __init__(self, src, html, raw):
        self.src, self.html, self.raw = src, html, raw
        self.parts, self.flows, self.blocks = [], 0, 0

    def tag(self, name, close=False):
        src = self.src
        attrs = ""
        for n, a in enumerate(["id", "role", "url", "xml:base"]):
            if src.bool(0.15):
                attrs += " %s=\"%s\"" % (a, src.pick(AV))
        return "<" + name + attrs + ("/" if close else "") + ">"

    def node(self, depth):
        src = self.src
        k = src.weighted([(8, "text"), (4 if depth else 0, "flow"), (4 if depth else 0, "block"), (2, "verb"), (1 if self.raw else 0, "raw"), (1, "empty"), (1, "anyempty")])
        if k == "text":
            for i in range(src.int(1, 12)):
                if i: self.parts.append((" ", "s"))
                self.parts.append((src.pick(TEXTS), ""))
        elif k in ("flow", "block"):
            block = k == "block"
            names = sorted(HBLOCK if self.html else BLOCK) if block else (HFLOW if self.html else FLOW)
            name = src.pick(names)
            self.blocks += block
            self.flows += not block
            self.parts.append((self.tag(name), "B" if block else ""))
            self.nodes(depth - 1)
            self.parts.append(("</%s>" % name, "B" if block else ""))
        elif k == "verb":
            code = "".join(src.pick(HCODE if self.html else CODE) for _ in src.many(0, 8, 4))
            name = "pre" if self.html else "programlisting"
            at = " class=\"%s\"" % src.pick(["programlisting", "a b"]) if self.html and src.bool(0.5) else ""
            self.parts.append(("<%s%s>%s</%s>" % (name, at, code, name), "B"))
        elif k == "raw":
            self.parts.append((PRE + src.pick(RAWS) + POST, "R"))
        elif k == "empty":
            self.parts.append((self.tag(src.pick(HFLOW if self.html else FLOW), True), ""))
        else:
            self.parts.append((self.tag(src.pick(["hr", "div"] if self.html else ["xi:include", "entry"]), True), "B"))

    def nodes(self, depth):
        for i in self.src.many(0, 6, 3):
            if self.src.bool(0.5):
                self.parts.append((" ", "s"))
            self.node(depth)
        if self.src.bool(0.3):
            self.parts.append((" ", "s"))

    def render(self, plain):
        src = self.src
        parts = [("", "B")] + self.parts + [("", "B")]
        out = []
        def kind(i):
            return parts[i][1] if 0 <= i < len(parts) else "B"
        i = 1
        while i < len(parts) - 1:
            t, k = parts[i]
            if k == "s":
                j = i
                while kind(j) == "s":
                    j += 1
                before, after = kind(i - 1), kind(j)
                if plain or "R" in (before, after):
                    out.append("" if plain and "B" in (before, after) and "R" not in (before, after) else " ")
                elif "B" in (before, after):
                    out.append(src.pick(["", " ", "\n", "\n  ", "\t"]))
                else:
                    out.append(src.pick([" ", " ", "\n", "  ", "\n    ", "\t", "\r\n", " \n "]))
                i = j
                continue
            if k == "B" and kind(i - 1) not in ("s", "R") and not plain and src.bool(0.3):
                out.append(src.pick([" ", "\n", "\n   "]))
            if not plain and t.startswith(("<pre", "<programlisting")) and t.endswith(("</pre>", "</programlisting>")) and src.bool(0.2):
                t = t.replace("\n", src.pick(["\r\n", "\r"]))
            out.append(t)
            if k == "B" and kind(i + 1) not in ("s", "R", "B") and not plain and src.bool(0.3):
                out.append(src.pick([" ", "\n", "\n   "]))
            i += 1
        return "".join(out)

HEADS = ["<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<!DOCTYPE article PUBLIC \"-//Boost//DTD BoostBook XML V1.0//EN\"\n     \"http://www.boost.org/tools/boostbook/dtd/boostbook.dtd\">\n"]

def generate(src, html, raw):
    t = Tree(src, html, raw)
    t.parts.append(("<%s>" % ("html" if html else "article"), "B"))
    for _ in src.many(1, 5, 2):
        t.nodes(src.int(1, 4))
    t.parts.append(("</%s>" % ("html" if html else "article"), "B"))
    return t, "<!DOCTYPE html>\n" if html else HEADS[0]

def printed(env, text, indent, width, html):
    r = pp(env, text, indent, width, html)
    if r[0] != b"ok" and r[0] != "ok":
        raise Fail("printing failed: %r\n%s" % (r, text))
    return r[1].decode("utf-8") if isinstance(r[1], bytes) else r[1]

def settings(src):
    return src.weighted([(2, -1), (1, 0), (1, 1), (1, 4), (1, 13)]), src.weighted([(3, -1), (1, 0), (1, 1), (2, 20), (1, 40), (1, 200)])

def f_trees(src, env):
    html = src.bool(0.4)
    raw = not html and src.bool(0.4)
    t, head = generate(src, html, raw)
    text = head + t.render(False) + src.pick(["", "\n"])
    indent, width = settings(src)
    src.key = text
    src.sample = text[len(head):][:400]
    src.nontrivial = t.flows > 0 and t.blocks > 0 and len(text) > 150
    src.label("html" if html else "xml")
    out = printed(env, text, indent, width, html)
    if raw:
        a, b = flat(tokens(text, html, True)), re.sub(r"\s+", "", out)
        # attribute lists are compared by the documents without raw passages
        plain = re.sub(r"\s+", "", text.replace(PRE, "").replace(POST, ""))
        if plain != b:
            raise Fail("printing changed more than white space:\n%s\n-----\n%s" % (text, out))
        for m in re.finditer(re.escape(PRE) + "(.*?)" + re.escape(POST), text, re.S):
            if m.group(1).strip(" \t\n") not in out:
                raise Fail("the raw passage %r is not in the output:\n%s\n-----\n%s" % (m.group(1), text, out))
        src.label("raw")
        return
    a, b = tokens(text, html, True), tokens(out, html, False)
    if a != b:
        raise Fail("indent %d, width %d: %s\n%s\n-----\n%s" % (indent, width, first_difference(a, b), text, out))

def f_layout(src, env):
    """Two layouts of one tree print alike, and so does the print itself."""
    html = src.bool(0.4)
    t, head = generate(src, html, False)
    indent, width = settings(src)
    # (in column 0 a broken line keeps a blank if that was a blank)
    indent, width = indent or 2, src.pick([-1, 60, 100])
    if indent > 5:
        indent = 3
    one, two = t.render(True), t.render(False)
    src.key = two
    src.sample = two[:400]
    src.nontrivial = one != two and t.flows > 0
    a, b = printed(env, one, indent, width, html), printed(env, two, indent, width, html)
    if a != b:
        raise Fail("indent %d, width %d: two layouts of one document print differently:\n%s\n-----\n%s\n----- prints\n%s\n-----\n%s" % (indent, width, one, two, a, b))
    c = printed(env, a, indent, width, html)
    if a != c:
        raise Fail("indent %d, width %d: printing again changes the result:\n%s\n-----\n%s" % (indent, width, a, c))

ILL = ["</a>", "<a>", "</para>", "<", "<para", "<!--", "<a b=\"", "</", "<?x", "<programlisting>", "</programlisting>", "<pre>", "x", PRE, POST, ">", "<!x", "-->", "<1>", "< a>", "</>", "\"", " "]

def f_malformed(src, env):
    """Anything else ends in a result or the failure exception."""
    html = src.bool(0.3)
    text = "".join(src.pick(ILL + TEXTS[:6]) for _ in src.many(1, 12, 5))
    text = HEADS[0] + text
    src.key = text
    src.sample = text[-200:]
    src.nontrivial = "<" in text
    indent, width = settings(src)
    r = pp(env, text, indent, width, html)
    kind = r[0].decode() if isinstance(r[0], bytes) else r[0]
    src.label(kind)
    if kind == "ok":
        out = r[1].decode("utf-8") if isinstance(r[1], bytes) else r[1]
        a, b = (re.sub(r"\s+", "", x.replace(PRE, "").replace(POST, "")) for x in (text, out))
        if a != b and PRE not in text:
            raise Fail("printing changed more than white space:\n%r\n-----\n%r" % (text, out))

def f_documents(src, env):
    html = src.bool(0.35)
    raw = src.bool(0.25)
    doc, files, s = document(src, errors=False, raw=raw)
    files = dict(files)
    files["m.qbk"] = doc
    indent, width = settings(src)
    args = ["m.qbk", "--debug", "--output-file", "o.x"] + (["--output-format", "onehtml"] if html else [])
    more = []
    if not html:
        if indent != -1: more.append("--indent=%d" % indent)
        if width != -1: more.append("--linewidth=%d" % width)
    src.key = repr(sorted(files.items())) + repr(more)
    src.sample = {"files": files, "args": more}
    a = env.run(files, args + ["--no-pretty-print"])
    if a.kind != "exit" or a.code:
        raise Discard("rejected, crashes or takes long")
    b = env.run(files, args + more)
    if b.kind == "timeout":
        raise Discard("takes long")
    src.label("html" if html else "xml")
    x = a.files["o.x"].decode("utf-8", "replace")
    if PRE in x or raw:
        src.nontrivial = True
        if b.kind == "exit" and b.code == 1 and b"ost" in (b.err if isinstance(b.err, bytes) else b.err.encode()):
            raise Discard("a raw passage is not well formed")
        if b.kind != "exit" or b.code:
            raise Fail("rejected only with pretty printing:\n%s\n%s" % (show_files(files), b.describe()))
        y = b.files["o.x"].decode("utf-8", "replace")
        p, q = (re.sub(r"[ \t\r\n]+", "", z.replace(PRE, "").replace(POST, "")) for z in (x, y))
        if p != q:
            i = next((i for i in range(min(len(p), len(q))) if p[i] != q[i]), min(len(p), len(q)))
            raise Fail("printing changed more than white space near %r / %r:\n%s\n-----\n%s\n-----\n%s" % (p[i - 20:i + 40], q[i - 20:i + 40], show_files(files), x, y))
        return
    if b.kind != "exit" or b.code:
        raise Fail("rejected only with pretty printing:\n%s\n%s" % (show_files(files), b.describe()))
    y = b.files["o.x"].decode("utf-8", "replace")
    src.nontrivial = len(x) > 600
    t, u = tokens(x, html, True), tokens(y, html, False)
    if t != u:
        raise Fail("%s\n%s\n----- not printed\n%s\n----- printed %s\n%s" % (first_difference(t, u), show_files(files), x, more, y))

PROPERTY = {
    "id": "C16",
    "rule": "block and inline tags are mixed in the printed document, and it is longer than a line",
    "families": [
        Family("trees", f_trees, 36000, rule="random mixtures of block, inline, verbatim and raw parts with every blank placement, indentation and line width, XML and HTML"),
        Family("layout", f_layout, 24000, rule="two random layouts of one tree, and the print printed again"),
        Family("malformed", f_malformed, 9000, rule="sequences of broken tags"),
        Family("documents", f_documents, 4500, rule="generated quickbook documents converted with and without pretty printing"),
    ],
}
