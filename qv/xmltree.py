"""Trees of (tag, attributes, children) used as the common form of expected
and actual output, and the canonical form in which they are compared."""
import re, xml.parsers.expat

class E:
    """An element; `info` carries what the generator knows about it."""
    __slots__ = ("tag", "attrs", "kids", "info")
    def __init__(self, tag, attrs=None, kids=None, info=None):
        self.tag, self.attrs, self.kids, self.info = tag, dict(attrs or {}), list(kids or []), info
    def __repr__(self):
        return show(self)

def show(n):
    if isinstance(n, str):
        return repr(n)
    a = "".join(" %s=%r" % kv for kv in sorted(n.attrs.items()))
    return "<%s%s>[%s]" % (n.tag, a, ", ".join(show(k) for k in n.kids))

class NotWellFormed(Exception):
    pass

class Comment(E):
    pass

def parse_xml(data, comments=False):
    """Parses a whole XML document; returns (root, doctype or None)."""
    p = xml.parsers.expat.ParserCreate()
    p.buffer_text = True
    root = []
    stack = [E("#doc")]
    doctype = [None]
    def start(tag, attrs):
        e = E(tag, attrs)
        stack[-1].kids.append(e)
        stack.append(e)
    def end(tag):
        stack.pop()
    def chars(s):
        stack[-1].kids.append(s)
    def dt(name, sysid, pubid, internal):
        doctype[0] = name
    def comment(s):
        if comments:
            stack[-1].kids.append(Comment("#comment", {}, [s]))
    p.StartElementHandler, p.EndElementHandler, p.CharacterDataHandler = start, end, chars
    p.StartDoctypeDeclHandler, p.CommentHandler = dt, comment
    try:
        p.Parse(data, True)
    except xml.parsers.expat.ExpatError as e:
        raise NotWellFormed(str(e))
    except ValueError as e:
        raise NotWellFormed(str(e))
    els = [k for k in stack[0].kids if isinstance(k, E) and k.tag != "#comment"]
    return els[0], doctype[0]

def parse_fragment(data):
    if isinstance(data, str):
        data = data.encode("utf-8", "surrogateescape")
    r, _ = parse_xml(b"<r xmlns:xi='x'>" + data + b"</r>")
    return r.kids

INLINE = set("""emphasis literal quote replaceable phrase link ulink code functionname classname methodname enumname
macroname headername conceptname globalname footnote anchor inlinemediaobject co sbr""".split())
VERBATIM = set(["programlisting"])
BLOCKY_INLINE = set(["footnote"])   # inline, but holds blocks
INLINE_DROP = set()

def text_of(n):
    if isinstance(n, str):
        return n
    return "".join(text_of(k) for k in n.kids)

def merge(kids):
    out = []
    for k in kids:
        if isinstance(k, str):
            if out and isinstance(out[-1], str):
                out[-1] += k
            elif k:
                out.append(k)
        else:
            out.append(k)
    return out

WS = re.compile("[ \t\r\n]+")

def canon(n, ids=False, flatten_code=True, drop_ids=("id",), verbatim=False):
    """The canonical form: white space collapsed outside verbatim elements and
    dropped at the edges of blocks, self links unwrapped, code highlighting
    flattened, id attributes left out."""
    if isinstance(n, str):
        return n
    attrs = {k: v for k, v in n.attrs.items() if k != "id" or (ids or n.tag == "anchor")}
    kids = n.kids
    code = n.tag in ("programlisting", "code")
    verb = verbatim or n.tag in VERBATIM
    if flatten_code and code:
        kids = flatten(kids)
    if n.tag in ("title", "bridgehead") and not ids:
        kids = [k for k in kids if not (isinstance(k, E) and k.tag == "phrase" and not k.kids and list(k.attrs) == ["id"])]
    kids = merge([canon(k, ids, flatten_code, drop_ids, verb) for k in merge(kids)])
    if n.tag == "programlisting" and kids and isinstance(kids[-1], str):
        kids[-1] = kids[-1].rstrip("\n")
        if not kids[-1]:
            kids = kids[:-1]
    if not verb:
        kids = [WS.sub(" ", k) if isinstance(k, str) else k for k in kids]
        block = n.tag not in INLINE or n.tag in BLOCKY_INLINE
        def isblock(k):
            return isinstance(k, E) and k.tag not in INLINE
        out = []
        for i, k in enumerate(kids):
            if isinstance(k, str):
                if (i == 0 and block) or (i and isblock(kids[i - 1])):
                    k = k.lstrip(" ")
                if (i == len(kids) - 1 and block) or (i + 1 < len(kids) and isblock(kids[i + 1])):
                    k = k.rstrip(" ")
                if not k:
                    continue
            out.append(k)
        kids = out
    return E(n.tag, attrs, kids)

def flatten(kids):
    out = []
    for k in kids:
        if isinstance(k, E) and k.tag == "phrase" and list(k.attrs) == ["role"]:
            out += flatten(k.kids)
        else:
            out.append(k)
    return out

def same(a, b):
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    return a.tag == b.tag and a.attrs == b.attrs and len(a.kids) == len(b.kids) and all(same(x, y) for x, y in zip(a.kids, b.kids))

def diff(a, b, path=""):
    """First difference between expected a and actual b, as text."""
    if isinstance(a, str) or isinstance(b, str):
        if a == b:
            return None
        return "at %s: expected %s, got %s" % (path or "/", show(a) if a is not None else None, show(b))
    p = path + "/" + b.tag
    if a.tag != b.tag:
        return "at %s: expected %s, got %s" % (path or "/", show(a), show(b))
    if a.attrs != b.attrs:
        return "at %s: expected attributes %r, got %r" % (p, a.attrs, b.attrs)
    for i in range(max(len(a.kids), len(b.kids))):
        if i >= len(a.kids):
            return "at %s: unexpected %s" % (p, show(b.kids[i]))
        if i >= len(b.kids):
            return "at %s: missing %s" % (p, show(a.kids[i]))
        d = diff(a.kids[i], b.kids[i], p + "[%d]" % i)
        if d:
            return d
    return None

def walk(n):
    yield n
    if isinstance(n, E):
        for k in n.kids:
            yield from walk(k)

def elements(n, *tags):
    for x in walk(n):
        if isinstance(x, E) and (not tags or x.tag in tags):
            yield x
