"""C01: no input makes the program crash, hang or read out of bounds.

The program is built with AddressSanitizer, UndefinedBehaviorSanitizer and
assertions; every report, abort, uncaught exception or run that does not end
fails the case.
"""
import os, re
from ..engine import Fail, Discard, Family, VERIF
from ..docgen import VERSIONS
from ..docrun import show_files
from ..soup import document, mutate, Soup, CODE

# Elements that stay open are parsed again as text by each element they are
# in: exponential time (see the known findings).
MAX_OPEN = 7
MAX_DEPTH = 60

def nesting(text):
    """(most brackets open at once, brackets never closed)"""
    if isinstance(text, bytes):
        text = text.decode("latin-1")
    depth = most = 0
    low = 0
    for c in re.findall(r"[][]", text):
        depth += 1 if c == "[" else -1
        depth = max(depth, 0)
        most = max(most, depth)
    return most, depth

def calm(text):
    return nesting(text)[0] <= MAX_DEPTH

def check(env, files, args, timeout=30):
    res = env.run(files, args, timeout=timeout)
    if res.kind == "timeout" and b"Infinite loop detected" in res.err and any(isinstance(v, str) and "[h" in v or isinstance(v, bytes) and b"[h" in v for v in files.values()):
        raise Discard("headings in headings (known finding)")
    if res.kind == "timeout":
        raise Fail("the run does not end:\n%s\n%r" % (show_files(files), args))
    if res.kind != "exit" or res.code not in (0, 1):
        raise Fail("the run failed:\n%s\n%r\n%s" % (show_files(files), args, res.describe()))
    return res

def options(src, doc=True):
    args = []
    fmt = src.weighted([(6, "xml"), (4, "onehtml"), (4, "html"), (1, "none"), (1, "default"), (1, "bad")])
    if fmt == "xml": args += ["--output-file", "o.xml"]
    elif fmt == "onehtml": args += ["--output-format", "onehtml", "--output-file", "o.html"]
    elif fmt == "html": args += ["--output-format", "html", "--output-dir", src.pick(["out", "d/out"][:1])]
    elif fmt == "none": args += ["--no-output"]
    elif fmt == "bad": args += src.pick([["--output-format", "pdf"], ["--output-file", "nodir/x"], ["--output-dir", "x"], ["--output-format", "html", "--output-file", "x"], ["--output-format", "html"], ["--output-format", "onehtml"],
                                         ["--output-file", ""], ["--output-format", ""], ["--no-output", "--output-file", "x"], ["--output-file", "."], ["--output-format", "html", "--output-dir", "m.qbk"]])
    for _ in src.many(0, 5, 1):
        args += src.pick([["--no-pretty-print"], ["--indent", "0"], ["--indent", "8"], ["--linewidth", "1"], ["--linewidth", "40"], ["--strict"], ["--ms-errors"], ["--debug"], ["--no-self-linked-headers"],
                          ["--expect-errors"], ["-Dm=*x*"], ["-D__m1__"], ["-DM2=[* a"], ["-D", ""], ["-D", "x y"], ["-D="], ["-D", "[]=["], ["-D", "caf\u00e9=\u00e9"], ["-I", "."], ["-I", "d"], ["-I", "nodir"], ["-I", ""],
                          ["--output-deps", "deps"], ["--output-deps", "deps", "--output-deps-format", "checked,escaped"], ["--output-deps-format", "x"], ["--output-checked-locations", "locs"],
                          ["--xinclude-base", "."], ["--xinclude-base", "d"], ["--xinclude-base", ""], ["--image-location", "."], ["--image-location", "d"], ["--image-location", ""],
                          ["--boost-root-path", "http://b/"], ["--boost-root-path", "../b"], ["--boost-root-path", ""], ["--css-path", "x.css"], ["--css-path", "http://c/x.css"], ["--css-path", ""],
                          ["--graphics-path", "g"], ["--graphics-path", "http://g/"], ["--graphics-path", ""], ["--indent", "-1"], ["--linewidth", "-1"], ["--linewidth", "0"], ["--linewidth", "x"], ["--bad-option"], ["--indent"],
                          ["--help"], ["--version"], ["m.qbk"], [""]][:(31 if not src.bool(0.2) else 58)])
    src.label(fmt)
    return args

EXTRA = {"d/x.qbk": "[article X]\n", "d/i.png": b"\x89PNG"}

def images(src):
    """Files the document may take for images."""
    out = {}
    for n in ("html/i.svg", "html/dir/i.svg", "d/i.svg", "i.svg"):
        if src.bool(0.3):
            w, h = (src.pick(["10", "1e3", "10px", "", "-5", "99999999999999999999", "a", "5.5cm", "%"]) for _ in (0, 1))
            t = src.pick(['<svg width="%s" height="%s"></svg>', "<svg width='%s' height='%s'/>", '<?xml version="1.0"?><!DOCTYPE svg><svg xmlns="x" width = "%s" height = "%s">', '<svg width="%s', '<svg width=%s height', "<svg", "<"])
            t = t % tuple((w, h)[:t.count("%s")])
            if src.bool(0.3): t = mutate(src, t)
            out[n] = t
    return out

def finish(src, env, files, args):
    src.key = repr(sorted(files.items())) + repr(args)
    src.sample = {"files": {k: v if isinstance(v, str) else repr(v) for k, v in files.items()}, "args": args}
    res = check(env, files, args)
    src.label("exit %d" % res.code)
    return res

def f_soup(src, env):
    doc, files, s = document(src, errors=src.bool(0.5))
    files = dict(files)
    for k in files:
        if src.bool(0.1):
            files[k] = mutate(src, files[k])
    if src.bool(0.5):
        doc = mutate(src, doc)
    for t in [doc] + list(files.values()):
        m, o = nesting(t)
        if o > MAX_OPEN or m > MAX_DEPTH:
            raise Discard("deep")
    files["m.qbk"] = doc
    files.update(EXTRA)
    files.update(images(src))
    src.nontrivial = len(doc) > 60
    finish(src, env, files, ["m.qbk"] + options(src))

_corpus = None
def corpus():
    global _corpus
    if _corpus is None:
        _corpus = {}
        root = os.path.join(VERIF, "corpus")
        for d, _, names in sorted(os.walk(root)):
            for n in sorted(names):
                p = os.path.join(d, n)
                _corpus[os.path.relpath(p, root)] = open(p, "rb").read().decode("utf-8", "surrogateescape")
    return _corpus

def related(name, depth=0, seen=None):
    """The corpus files that a file refers to, relative to it."""
    c = corpus()
    out = {}
    base = os.path.dirname(name)
    for m in re.finditer(r"\[\s*(?:include|import)(?::\w*)?\s+([^\]\s]+)\s*\]", c[name]):
        p = os.path.normpath(os.path.join(base, m.group(1)))
        if p in c and p not in out and not p.startswith(".."):
            out[p] = c[p]
            if depth < 3 and p != name:
                for k, v in related(p, depth + 1).items():
                    out.setdefault(k, v)
    return out

def f_corpus(src, env):
    c = corpus()
    names = [n for n in c if n.endswith((".quickbook", ".qbk")) and "unit/" not in n and len(c[n]) < 40000]
    name = src.pick(names)
    text = c[name]
    rel = related(name)
    base = os.path.dirname(name)
    files = {}
    for k, v in rel.items():
        files[k] = mutate(src, v) if src.bool(0.2) else v
    kind = src.pick(["mutate", "mutate", "splice", "version", "plain"])
    if kind == "mutate":
        text = mutate(src, text)
    elif kind == "splice":
        other = c[src.pick(names)]
        lines = text.split("\n")
        more = other.split("\n")
        a = src.int(0, len(more))
        i = src.int(0, len(lines))
        text = "\n".join(lines[:i] + more[a:a + src.int(1, 30)] + lines[i:])
    if kind == "version" or src.bool(0.2):
        text = re.sub(r"\[quickbook\s+1\.\d", "[quickbook 1.%d" % (src.pick(VERSIONS) - 100), text)
    for t in [text] + list(files.values()):
        m, o = nesting(t)
        if o > MAX_OPEN + 1 or m > MAX_DEPTH:
            raise Discard("deep")
    files[os.path.join(base, "m.qbk")] = text
    src.nontrivial = kind != "plain"
    args = options(src)
    src.label(kind)
    finish_dir(src, env, files, base, args)

def finish_dir(src, env, files, base, args):
    args = [os.path.join(base, "m.qbk")] + args
    finish(src, env, files, args)

TOKENS = ["[", "]", "[[", "]]", "'''", "`", "``", "```", "\\", "\n", "\n", "\n\n", " ", "  ", "\t", "[/", "/", "*", "#", "_", "=", "..", ".", "\"", "'", "[*", "[section ", "[endsect]", "[table ", "[variablelist ",
          "[def ", "[template ", "[t ", "[`t ", "[@", "[link ", "[#", "[$", "[?", "[?!", "[include ", "[import ", "[footnote ", "[note ", "[:", "[pre ", "[h1 ", "[heading:", "[c++]", "[python]", "[teletype]", "[!c++]",
          "[quickbook 1.4]", "[quickbook 1.7]", "[article ", "[id ", "[role ", "[block ", "[ordered_list ", "[br]", "[xinclude ", "[role", "[article x [quickbook 1.6] ]", "[authors [", "[copyright 2000", "----", "\\u", "\\U", "\\n",
          "a", "b", "word", "0", "1", ":", ";", "&", "<", ">", "\u00e9", "\u65e5", "\ud83d"[:0], "m.qbk", "a.qbk", "a.cpp", "//[", "//]", "/*[x]*/", "/*`", "*/", "//`", "/*<", ">*/", "\"\"\"`", "\"\"\"", "#[x", "#]", "//<-", "//->", "\0", "\x01", "\x0c", "\r",
          "__FILENAME__", "~", "^", "-", "(", ")", "{", "}", "<b>", "</b>", "<b a=\"", "%", "$", "[authors", "[license ", "[purpose ", "[last-revision ", "[compatibility-mode 1.5]", "[source-mode c++]"]

def tokens(src, lo, hi, mean):
    out, opened = "", 0
    for _ in src.many(lo, hi, mean):
        t = src.pick(TOKENS)
        if opened + t.count("[") > MAX_OPEN - 1 and "[" in t:
            t = "]"
        opened = max(0, opened + t.count("[") - t.count("]"))
        out += t
    return out

def f_tokens(src, env):
    """Text made of the language's tokens in any order."""
    head = src.weighted([(5, "[article T\n[quickbook 1.%d]\n]\n" % (src.pick(VERSIONS) - 100)), (2, ""), (2, "[article T [quickbook 1.%d]" % (src.pick(VERSIONS) - 100)), (1, "[quickbook 1.%d]\n" % (src.pick(VERSIONS) - 100))])
    files = {"m.qbk": head + "\n" + tokens(src, 1, 60, 20)}
    for n in ("a.qbk", "a.cpp", "a.py"):
        if src.bool(0.3):
            files[n] = tokens(src, 0, 30, 12)
    if src.bool(0.5):
        n = src.pick(["a.qbk", "a.cpp", "a.py"])
        if n in files:
            files["m.qbk"] = head + "\n[%s %s]\n" % (src.pick(["include", "import"]), n) + files["m.qbk"][len(head):]
    src.nontrivial = len(files["m.qbk"]) > 20
    finish(src, env, files, ["m.qbk"] + options(src))

ALPHABET = [bytes([i]) for i in range(256)]

def f_bytes(src, env):
    """Any bytes at all."""
    data = src.bytes(0, 120, 40, alphabet=None if src.bool(0.5) else [c.encode("utf-8", "surrogatepass") for c in "[]'`*#\\ \n\t/=_.-ab01<>&\"\u00e9"] + [b"\xff", b"\xc3", b"\xed\xa0\x80", b"\0"])
    if src.bool(0.6):
        data = b"[article T\n[quickbook 1.%d]\n]\n" % (src.pick(VERSIONS) - 100) + data
    m, o = nesting(data)
    if o > MAX_OPEN:
        raise Discard("deep")
    files = {"m.qbk": data}
    src.nontrivial = len(data) > 10
    finish(src, env, files, ["m.qbk"] + options(src))

TAGS = ["para", "section", "title", "emphasis", "programlisting", "literal", "table", "tgroup", "colspec", "thead", "tbody", "row", "entry", "informaltable", "variablelist", "varlistentry", "term", "listitem",
        "itemizedlist", "orderedlist", "simpara", "link", "ulink", "anchor", "xref", "imagedata", "inlinemediaobject", "imageobject", "textobject", "phrase", "footnote", "blockquote", "note", "warning", "co", "callout",
        "calloutlist", "quote", "bridgehead", "screen", "code", "sub", "book", "chapter", "article", "library", "part", "appendix", "preface", "index", "articleinfo", "author", "firstname", "copyright", "year", "holder",
        "legalnotice", "functionname", "classname", "macroname", "headername", "enumname", "methodname", "conceptname", "globalname", "replaceable", "xi:include", "sidebar", "important", "caution", "tip", "sbr", "br", "hr", "abbrev",
        "libraryinfo", "librarypurpose", "librarycategory", "bogus", "graphic", "mediaobject", "segmentedlist", "segtitle", "seglistitem", "seg", "partintro", "x.y"]
ATTRS = ["id", "linkend", "url", "role", "href", "fileref", "align", "linkends", "arearefs", "format", "width", "alt", "lang", "name", "dirname", "last-revision", "xreflabel", "endterm", "type", "cols", "morerows"]
VALUES = ["a", "b", "doc", "doc.s", "http://x/", "boost:/libs/x", "boost:", "", "x y", "&lt;", "..", "../x", "/abs", "a.b", "#a", "bold", "$0", "$9", "$", "i.png", "<", "p1", "-", "index", "a/b", ".", "a..b", "."]

def xml(src, depth):
    out = ""
    for _ in src.many(0, 4, 2):
        k = src.weighted([(4, "element"), (3, "text"), (1, "comment"), (1, "odd")])
        if k == "text" or depth == 0:
            out += src.pick(["text ", "a & b", "&lt;", "&amp;", "&bogus;", "\n", " ", "'", "\"", "]]>", "x > y"])
        elif k == "element":
            t = src.pick(TAGS)
            a = "".join(" %s=%s" % (src.pick(ATTRS), src.pick(['"%s"', "'%s'"]) % src.pick(VALUES)) for _ in src.many(0, 3, 1))
            out += "<%s%s/>" % (t, a) if src.bool(0.2) else "<%s%s>%s</%s>" % (t, a, xml(src, depth - 1), t if not src.bool(0.02) else src.pick(TAGS))
        elif k == "comment": out += src.pick(["<!-- c -->", "<!---->", "<!-- ", "<!-- a--b -->"])
        else: out += src.pick(["<", ">", "<?p x?>", "<![CDATA[x]]>", "<!DOCTYPE x>", "</x>", "<x", "<x a", "<x a=", "<x a='", "&", "&#0;", "<?", "<!", "</", "<x\na=\"b\"/>", "<x a=\"b\n\"/>"])
    return out

def f_xml(src, env):
    """Raw BoostBook of any shape, in several places."""
    parts = []
    for _ in src.many(1, 4, 2):
        x = "'''" + xml(src, 4) + "'''"
        parts.append(src.weighted([(5, "%s"), (1, "[section %s]\n\n[endsect]"), (1, "[h2 %s]"), (1, "[table %s\n[[a]]\n]"), (1, "[*%s]"), (1, "[note %s]"), (1, "[#%s]"), (1, "[section s]\n\n%s\n\n[endsect]"), (1, "[footnote %s]")]) % x)
    doc = "[%s %s\n[quickbook 1.%d]\n%s]\n\n%s\n" % (src.pick(["article", "library", "book", "chapter"]), src.pick(["T", "T", "'''<x/>'''"]), src.pick([107, 106, 105, 103]) - 100, src.pick(["", "[id doc]\n", "[purpose '''<b>x</b>''']\n"]), "\n\n".join(parts))
    files = {"m.qbk": doc}
    src.nontrivial = True
    finish(src, env, files, ["m.qbk"] + options(src))

def f_sources(src, env):
    """Programs with snippets, damaged or not, imported or included."""
    ver = src.pick(VERSIONS)
    s = Soup(src, ver)
    name = src.pick(["a.cpp", "a.py", "a.hpp", "a.jam", "a.txt"])
    text = s.source(name) if src.bool(0.6) else tokens(src, 1, 50, 20)
    if src.bool(0.5):
        text = mutate(src, text, None)
    if nesting(text)[1] > MAX_OPEN:
        raise Discard("deep")
    calls = "".join("[%s]\n\n" % src.pick(["sn1", "sn2", "sn3", "x"]) for _ in src.many(0, 3, 2))
    doc = "[article T\n[quickbook 1.%d]\n%s]\n\n[%s %s]\n\n%s" % (ver - 100, src.pick(["", "", "[source-mode python]\n", "[source-mode teletype]\n"]), src.pick(["import", "import", "include"]), name, calls)
    src.nontrivial = len(text) > 20
    finish(src, env, {"m.qbk": doc, name: text}, ["m.qbk"] + options(src))

WRAPS = ["[link %s t]", "[link %s]", "[$%s]", "[$i.png [alt %s]]", "[@%s t]", "[@%s]", "[#%s]", "[* %s]", "[footnote %s]", "``[%s]``", "\'\'\'%s\'\'\'", "[? x %s]", "[funcref %s x]",
         "[role %s x]", "[role r %s]", "[table:%s t [[a]]]", "[table %s [[%s]]]", "\n* %s\n* b\n", "[note %s]", "[section:%s s]\n[endsect]", "[section %s]\n[endsect]", "[xinclude %s]", "[include %s]",
         "[include:%s a.qbk]", "[variablelist %s [[a][%s]]]", "[h3:%s x]", "[import %s.cpp]", "[ordered_list [%s]]", "x[zz %s]", "[template w[] %s]", "[def m %s] m", "[!teletype]%s", "[:%s]", "[`%s]", "[pre %s]"]

def wrap(src, s):
    w = src.pick(WRAPS)
    return w.replace("%s", s)

def f_cycles(src, env):
    """Files and templates that refer to each other in circles."""
    ver = src.pick(VERSIONS)
    names = ["m.qbk", "a.qbk", "d/b.qbk"]
    files = {}
    for i, n in enumerate(names):
        t = "" if src.bool(0.4) and i else "[%s T\n[quickbook 1.%d]\n]\n\n" % (src.pick(["article", "chapter"]), src.pick([ver, 107, 106, 105]) - 100)
        for _ in src.many(1, 4, 2):
            k = src.pick(["file", "template", "template", "wrapped", "wrapped", "call", "glob"])
            if k == "file":
                t += "[%s %s]\n\n" % (src.pick(["include", "import", "include:x"]), src.pick(["m.qbk", "a.qbk", "d/b.qbk", "../a.qbk", "../m.qbk", "b.qbk", "./m.qbk", "d/../a.qbk"]))
            elif k == "template":
                a, b = src.pick("xyz"), src.pick("xyz")
                t += "[template %s%s [%s %s]]\n\n" % (a, src.pick(["", "[p]", "[]"]), b, src.pick(["", "[p]", "q", "[%s]" % a]))
            elif k == "wrapped":
                # through another construct, or an attribute of it
                a = src.pick("xyz")
                b = a if src.bool(0.4) else src.pick("xyz")
                t += "[template %s[]%s%s]\n\n" % (a, src.pick([" ", "\n"]), (wrap(src, "[%s]" % b) if src.bool(0.6) else src.pick(["[%s]", "q[%s]", "[%s q]"]) % b) + src.pick(["", "q"]))
                if src.bool(0.6):
                    t += wrap(src, "[%s]" % a) + "\n\n"
            elif k == "call":
                t += "[%s %s]\n\n" % (src.pick("xyz"), src.pick(["", "v", "[y]"]))
            else:
                t += "[%s %s]\n\n" % (src.pick(["include", "import"]), src.pick(["*.qbk", "**.qbk", "[a-m]*.qbk", "d/*", "../*.qbk", "?.qbk", "*/*"]))
        files[n] = t
    src.nontrivial = True
    finish(src, env, files, ["m.qbk"] + options(src))

def known_exponential(env):
    """Nested inline elements that are never closed take exponential time."""
    files = {"m.qbk": "[article T\n[quickbook 1.6]\n]\n\n" + "[* " * 40 + "\n"}
    return env.run(files, ["m.qbk", "--output-file", "o.xml"], timeout=8).kind == "timeout"

def known_headings(env):
    """Before 1.6 the id of a heading is made from its translated content."""
    doc = "[article T\n[quickbook 1.5]\n]\n\n[template t0[]\n[[][h1[t0]]]]\n\n[t0]\n"
    return env.run({"m.qbk": doc}, ["m.qbk", "--output-file", "o.xml"], timeout=4).kind == "timeout"

def known_stack(env):
    files = {"m.qbk": "[article T\n[quickbook 1.7]\n]\n\n" + "[" * 30000 + "x" + "]" * 30000 + "\n"}
    r = env.run(files, ["m.qbk", "--output-file", "o.xml"], timeout=20)
    return r.kind != "exit" or r.code not in (0, 1)

PROPERTY = {
    "id": "C01",
    "rule": "the input is more than a few characters and was damaged, generated at random or uses constructs in unusual places",
    "known": {"heading-ids-exponential": known_headings, "open-elements-exponential": known_exponential, "deep-nesting-stack": known_stack},
    "families": [
        Family("soup", f_soup, 3500, rule="documents with every construct in plausible and implausible places, half of them damaged, with random options and image files"),
        Family("corpus", f_corpus, 2000, rule="the project's own documents, mutated, spliced or with another version"),
        Family("tokens", f_tokens, 3000, rule="the language's tokens in any order"),
        Family("bytes", f_bytes, 1200, rule="any bytes"),
        Family("xml", f_xml, 3500, rule="raw BoostBook of any shape through the pretty printer, id handling and HTML generators"),
        Family("sources", f_sources, 1500, rule="snippet sources, damaged or not"),
        Family("cycles", f_cycles, 2500, rule="files and templates that refer to each other in circles"),
    ],
}
