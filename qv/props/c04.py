"""C04: literal text reaches the output unchanged, once and in order."""
import re
from ..engine import Fail, Discard, Family
from ..docgen import Gen, header, VERSIONS, PUNCT
from ..docrun import convert, compare, tree, PLAIN
from ..xmltree import E, elements, text_of, parse_xml
from .. import docgen

RANGES = [(0x21, 0x7e), (0x80, 0xff), (0x100, 0x7ff), (0x800, 0xd7ff), (0xe000, 0xfffd), (0x10000, 0x10ffff)]
def uchar(src):
    lo, hi = src.pick(RANGES)
    k = src.draw(3)
    cp = lo if k == 0 else hi if k == 1 else src.int(lo, hi)
    return chr(cp)

ALWAYS = set("\\[]`*/_=")     # may begin markup

def f_chars(src, env):
    """Any text, every character that could start markup escaped."""
    ver = src.pick(VERSIONS)
    text, out = "", ""
    form = ""
    for _ in src.many(1, 60, 20):
        c = src.weighted([(20, "L"), (12, "P"), (8, "S"), (8, "U"), (4, "u"), (2, "e"), (2, "c"), (1, "n")])
        if c == "L":
            ch = src.pick("abcxyzABCZ0189")
            text += ch; out += ch
        elif c == "P":
            ch = src.pick(PUNCT)
            esc = ch in ALWAYS or src.bool(0.4) or (ch == "'" and out.endswith("''"))
            if ch == "#" and not text.strip():
                esc = True
            text += ch
            out += "\\" + ch if esc else ch
            if esc: src.label("escaped punctuation")
        elif c == "S":
            text += " "; out += " "
        elif c == "U":
            ch = uchar(src)
            if ch in PUNCT:
                out += "\\"
            text += ch; out += ch
            src.label("unicode")
        elif c == "u":
            ch = uchar(src)
            text += ch
            out += ("\\u%04x" if ord(ch) < 0x10000 else "\\U%08x") % ord(ch)
            src.label("code point escape")
        elif c == "e":
            out += "\\ "
            src.label("escaped space")
        elif c == "c":
            out += "[/" + src.pick(["", "x", " [y] ", "\\", "&", "'''", "a\nb"]) + "]"
            src.label("comment")
        elif out and out[-1] not in "\n \t":
            # a single line end
            text += "\n"; out += "\nq"
            text += "q"
    where = src.pick(["para", "bold", "cell", "item", "heading", "title", "section", "quote", "term", "foot", "link", "arg", "macro", "pre"])
    if ver < 106 and where in ("title", "arg"):
        where = "para"
    if where in ("heading", "title", "section", "term", "item", "arg", "macro"):
        out = out.replace("\nq", " q"); text = text.replace("\nq", " q")
    o = "o" + out + "o"
    t = "o" + text + "o"
    if where == "arg" and ".." in o:
        raise Discard("argument separator")
    body, path = {
        "para": (o, ["para"]),
        "bold": ("a [* %s]" % o, ["para", "emphasis"]),
        "cell": ("[table\n[[%s][z]]\n]" % o, ["entry"]),
        "item": ("* %s\n* z" % o, ["listitem"]),
        "heading": ("[h2 %s]" % o, ["bridgehead"]),
        "title": ("[table %s\n[[a][z]]\n]" % o, ["table", "title"]),
        "section": ("[section %s]\n[endsect]" % o, ["section", "title"]),
        "quote": ("[: %s]" % o, ["blockquote"]),
        "term": ("[variablelist v\n[[%s][d]]\n]" % o, ["term"]),
        "foot": ("a [footnote %s]" % o, ["footnote"]),
        "link": ("a [link x %s]" % o, ["link"]),
        "arg": ("[template t[p q]\\[[p]\\]]\n\na [t %s..z]" % o, ["para"]),
        "macro": ("[def MM %s]\n\na [^MM]" % o, ["literal"]),
        "pre": ("[pre %s]" % o, ["programlisting"]),
    }[where]
    src.label("in " + where)
    doc = header(ver) + body + "\n"
    src.key = doc
    src.sample = doc
    src.nontrivial = bool(re.search(r"[&<>\"\\]|[^\x00-\x7f]", out))
    res = convert(env, doc)
    root = tree(doc, res)
    n = root
    for tag in path:
        n = next(elements(E("x", {}, n.kids), tag), None) if n is not None else None
        if n is not None and tag == path[0] and len(path) == 1:
            break
    if n is None:
        raise Fail("no %s in the output:\n%s\n%s" % ("/".join(path), doc, res.files["o.xml"].decode("utf-8", "replace")))
    got = text_of(n).strip(" \n\t\r")
    want = "a [" + t + "]" if where == "arg" else t
    if got != want:
        raise Fail("text %r came out as %r\n%s\n%s" % (want, got, doc, res.files["o.xml"].decode("utf-8", "replace")))
    if where not in ("arg",):
        total = text_of(root)
        if total.count(want) != 1 and len(want) > 6:
            raise Fail("text %r appears %d times\n%s" % (want, total.count(want), doc))

def f_documents(src, env):
    """The same inside whole documents."""
    ver = src.pick(VERSIONS)
    g = Gen(src, ver, {"word": 10, "mid": 20, "alone": 12, "escape": 14, "unicode": 12, "escspace": 6, "comment": 8, "inline": 6, "footnote": 2})
    s, want = g.blocks(3, 1, 4, 2)
    doc = header(ver) + s + "\n"
    src.key = doc
    src.sample = doc
    src.nontrivial = any(c in text_of(E("x", {}, want)) for c in '&<>"')
    res = convert(env, doc)
    compare(doc, want, res)

def f_bytes(src, env):
    """Bytes of any encoding pass through as they are, escaped for XML."""
    ver = src.pick(VERSIONS)
    ok = bytes(c for c in range(1, 256) if c not in b"\\[]`*/_=\r\n\t '" and not 0x09 <= c <= 0x0d)
    t = b"".join(bytes([src.pick(ok)]) for _ in src.many(1, 24, 8))
    enc = t.replace(b"&", b"&amp;").replace(b"<", b"&lt;").replace(b">", b"&gt;").replace(b'"', b"&quot;")
    doc = header(ver).encode() + b"o" + t + b"o\n"
    src.key = t
    src.sample = repr(t)
    src.nontrivial = any(c > 127 for c in t)
    res = convert(env, doc)
    out = res.files["o.xml"]
    if out.count(b"o" + enc + b"o") != 1:
        raise Fail("the bytes %r do not come out once: %r" % (t, out))

PROPERTY = {
    "id": "C04",
    "rule": "the text holds a character that XML or quickbook must treat specially, or one outside ASCII",
    "families": [
        Family("chars", f_chars, 9000, rule="arbitrary characters with escapes in 14 places of a document"),
        Family("documents", f_documents, 5000, rule="whole documents dense in escapes, entities, comments and Unicode"),
        Family("bytes", f_bytes, 4000, rule="arbitrary bytes in running text"),
    ],
}
