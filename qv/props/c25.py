"""C25 XML reader and tree."""
import xml.parsers.expat
from ..engine import Family, Fail
from ..driver import pack, unpack

NAMES = ["a", "b", "para", "xi:include", "x-y", "Z", "h1", "sect_2", "n.m"]
ATTRS = ["id", "role", "xml:base", "x-a", "a", "z1"]
TEXTS = ["t", "hello ", " world", "\n", "&amp;", "&lt;x", "q\"q", "a'b", "]", "=", "/", "é", "  ", "-->", "?>"]
AVALS = ["", "v", "a b", "x&amp;y", "&lt;", "'", "\"", ">", "a/b?c=d", "é", "\n", "&#65;", "&#x42;"]
DECODE = {"&amp;": "&", "&lt;": "<", "&#65;": "A", "&#x42;": "B"}

def dec(s):
    for k, v in DECODE.items():
        s = s.replace(k, v)
    return s

def ws(src, must=False):
    return src.pick([" ", "\n", "  ", "\t", "\r\n"]) if must or src.bool(0.25) else ""

def gen_nodes(src, depth, out, dump, stats):
    """Appends text to out and the expected pre-order dump to dump."""
    last_text = False
    for _ in src.many(0, 5, 2.2 if depth else 3):
        k = src.weighted([(5, "el"), (4, "text"), (1, "comment"), (1, "pi"), (1, "decl")])
        if k == "text":
            if last_text:
                continue
            t = "".join(src.pick(TEXTS) for _ in src.many(1, 3, 1.6))
            out.append(t)
            dump.append("T" + t)
            last_text = True
            stats["text"] += 1
        elif k == "el":
            last_text = False
            nm = src.pick(NAMES)
            stats["el"] += 1
            stats["depth"] = max(stats["depth"], depth + 1)
            out.append("<" + nm)
            dump.append("(" + nm)
            attrs = {}
            for _ in src.many(0, 3, 0.8):
                a = src.pick(ATTRS)
                if a in attrs:
                    continue
                v = src.pick(AVALS) + (src.pick(AVALS) if src.bool(0.3) else "")
                q = src.pick('"\'')
                v = v.replace(q, "")
                out.append(ws(src, True) + a + ws(src) + "=" + ws(src) + q + v + q)
                attrs[a] = dec(v)
            for a in ATTRS:
                if a in attrs:
                    dump.append("@%s=%s" % (a, attrs[a]))
            out.append(ws(src))
            if depth > 4 or src.bool(0.25):
                out.append("/" + ws(src) + ">")
            else:
                out.append(">")
                gen_nodes(src, depth + 1, out, dump, stats)
                out.append("</" + nm + ws(src) + ">")
            dump.append(")")
        elif k == "comment":
            out.append("<!--" + src.pick(["", " c ", "<a>", "'", "a-b", "\"", ">"]) + "-->")
            last_text = False
        elif k == "pi":
            out.append("<?" + src.pick(["x", "xml version=\"1.0\"", "p '>'", "q ? r", "p it's", "p a < b", "p \">", "p ?", "p <a>", "p ?? >"]) + "?>")
            last_text = False
        else:
            out.append("<!" + src.pick(["DOCTYPE a", "DOCTYPE a PUBLIC \"x>y\" '<z>'", "ELEMENT"]) + ">")
            last_text = False

def gen_doc(src):
    out, dump, stats = [], [], {"text": 0, "el": 0, "depth": 0}
    gen_nodes(src, 0, out, dump, stats)
    return "".join(out), dump, stats

def f_parse(src, env):
    text, dump, stats = gen_doc(src)
    src.key = text
    src.sample = text
    src.nontrivial = stats["el"] >= 2 and stats["depth"] >= 2 and stats["text"] >= 1
    r = env.unit("xml_parse", text, pack(*ATTRS))
    if not isinstance(r, list) or r[0] != b"ok":
        raise Fail("xml_parse rejects or mishandles %r: %r" % (text, r))
    got = [x.decode("utf-8", "replace") for x in r[1:]]
    if got != dump:
        raise Fail("xml_parse(%r) gives\n%r, expected\n%r" % (text, got, dump))

def f_malformed(src, env):
    text, dump, stats = gen_doc(src)
    pre, _, _ = gen_doc(src)
    bad = src.pick(["<", "<a", "<a ", "<a b", "<a b=", "<a b= ", "<a b=\"", "<a b=\"x", "<a b=x>", "<a b='x\">", "<a/",
                    "<a/b>", "</a>", "<a></b>", "<a></a", "<a></ >", "<a>", "<a><b></a>", "<!--", "<!-- x --", "<?",
                    "<?x", "<?x>", "<!D", "<!D '", "<!D <", "< >", "<>", "<a =\"x\">", "<a \"x\">", "<?x '>", "<b><a/>",
                    "<a></a></a>", "</", "<a b=\"x\" c", "<a b=>"])
    if bad == "<a b=\"" or bad.endswith("'") or bad.endswith('"') or bad.endswith("'?>") or "x\">" in bad:
        tail = ""       # what follows could close the string
    elif bad in ("<a b", "<a ", "<a", "<a/", "<", "<a b=", "<a b= ", "<a b=\"x", "<!--", "<!-- x --", "<?", "<?x", "<?x>", "<?x '>", "<!D", "<a></a",
                 "</", "<a b=\"x\" c"):
        tail = ""
    else:
        tail = text
    full = pre + bad + tail
    src.key = full
    src.sample = full
    src.nontrivial = True
    r = env.unit("xml_parse", full, pack(*ATTRS))
    if not isinstance(r, list):
        raise Fail("xml_parse(%r) threw %r" % (full, r))
    if r[0] != b"error":
        raise Fail("xml_parse accepts malformed %r" % full)
    n = len(full.encode())
    if not 0 <= int(r[2]) <= n:
        raise Fail("xml_parse(%r): error position %s outside the text" % (full, r[2]))
    p = int(r[2])
    if bad not in ("<a>", "<b><a/>") and p < len(pre.encode()):
        raise Fail("xml_parse(%r): error position %d is before the fault" % (full, p))

SOUP = ["<a>", "</a>", "<b", ">", "/>", "<", "/", " ", "x", "=", '"', "'", "<!--", "-->", "<?p ", "?>", "<!D", "a", "id=\"v\"",
        "&amp;", "\n", "</b>", "-", "!", "?", "\0", "é"]

def expat_dump(text):
    dump = []
    stack = [None]
    state = {"text": ""}
    def flush():
        if state["text"]:
            dump.append("T" + state["text"])
            state["text"] = ""
    p = xml.parsers.expat.ParserCreate()
    def s(n, a):
        flush()
        dump.append("(" + n)
        for k in ATTRS:
            if k in a:
                dump.append("@%s=%s" % (k, a[k]))
    def e(n):
        flush()
        dump.append(")")
    def c(d):
        state["text"] += d
    p.StartElementHandler, p.EndElementHandler, p.CharacterDataHandler = s, e, c
    p.Parse(text, True)
    flush()
    return dump

def f_soup(src, env):
    """Anything at all: an answer or an error inside the text; whatever
    expat accepts must be accepted with the same elements and text."""
    body = "".join(src.pick(SOUP) for _ in src.many(0, 14, 6))
    text = body if src.bool(0.3) else "<r>" + body + "</r>"
    src.key = text
    src.sample = text
    raw = text.encode()
    r = env.unit("xml_parse", raw, pack(*ATTRS))
    if not isinstance(r, list):
        raise Fail("xml_parse(%r) threw %r" % (text, r))
    if r[0] == b"error":
        if not 0 <= int(r[2]) <= len(raw):
            raise Fail("xml_parse(%r): error position %s outside the text" % (text, r[2]))
    elif r[0] != b"ok":
        raise Fail("xml_parse(%r): broken tree %r" % (text, r))
    try:
        want = expat_dump(raw)
    except xml.parsers.expat.ExpatError:
        src.label("not XML")
        return
    src.label("XML")
    if any(g[0] == "(" and not g.isascii() for g in want):
        return      # names outside ASCII aren't read
    src.nontrivial = True
    if r[0] != b"ok":
        raise Fail("xml_parse rejects %r: %r" % (text, r))
    got = []
    for x in r[1:]:
        x = x.decode()
        if x[0] == "T":
            t = dec(x[1:]).replace("\r\n", "\n")
            if got and got[-1][0] == "T":
                got[-1] += t
            else:
                got.append("T" + t)
        elif x[0] == "@":
            k, v = x.split("=", 1)
            got.append(k + "=" + v.replace("\n", " ").replace("\t", " "))
        else:
            got.append(x)
    if raw.lstrip().startswith(b"<r>") is False:
        got = [g for g in got if not (g[0] == "T" and not g[1:].strip())]
        want = [g for g in want if not (g[0] == "T" and not g[1:].strip())]
    if got != want:
        raise Fail("xml_parse(%r) gives %r, expat %r" % (text, got, want))

# -- trees --------------------------------------------------------------

class N:
    def __init__(self, name):
        self.name, self.kids, self.parent = name, [], None

def show(forest):
    return " ".join(n.name + ("(" + show(n.kids) + ")" if n.kids else "") for n in forest)

def walk(forest):
    for n in forest:
        yield n
        yield from walk(n.kids)

def show_ops(ops):
    return [" ".join(x.decode() for x in unpack(o)) for o in ops]

def f_tree(src, env):
    trees = [[], [], []]
    builders = [dict(forest=[], parent=None, cur=None) for _ in range(2)]
    ops, want = [], []
    n = 0
    moves = 0
    def op(*a):
        ops.append(pack(*a))
    def siblings(forest, x):
        return x.parent.kids if x.parent else forest
    for _ in src.many(5, 60, 30):
        k = src.weighted([(12, "b.add"), (6, "b.start"), (5, "b.end"), (3, "b.release"), (2, "b.extract"), (1, "b.cur"),
                          (1, "b.show"), (3, "new"), (4, "extract"), (3, "before"), (3, "after"), (3, "first"), (3, "last"),
                          (1, "move"), (2, "show"), (1, "live")])
        bi = 0 if src.bool(0.8) else 1
        b = builders[bi]
        t, u = src.int(0, 2), src.int(0, 2)
        if k == "b.add":
            n += 1
            op(k, bi, "n%d" % n)
            x = N("n%d" % n)
            x.parent = b["parent"]
            siblings(b["forest"], x).append(x)
            b["cur"] = x
        elif k == "b.start":
            if b["cur"] and not b["cur"].kids:
                op(k, bi)
                b["parent"], b["cur"] = b["cur"], None
        elif k == "b.end":
            if b["parent"]:
                op(k, bi)
                b["cur"] = b["parent"]
                b["parent"] = b["cur"].parent
        elif k == "b.release":
            if b["forest"] and not trees[t]:
                op(k, bi, t)
                trees[t] = b["forest"]
                b.update(forest=[], parent=None, cur=None)
        elif k == "b.extract":
            open_ = set()
            x = b["parent"]
            while x:
                open_.add(x.name)
                x = x.parent
            cands = [x for x in walk(b["forest"]) if x is not b["cur"] and x.name not in open_ and
                     (x.parent or x is not b["forest"][0])]
            if cands and not trees[t]:
                x = src.pick(cands)
                op(k, bi, x.name, t)
                siblings(b["forest"], x).remove(x)
                x.parent = None
                trees[t] = [x]
                moves += 1
        elif k == "b.cur":
            op(k, bi)
            want.append((b["parent"].name if b["parent"] else "-") + "/" + (b["cur"].name if b["cur"] else "-"))
        elif k == "b.show":
            op(k, bi)
            want.append(show(b["forest"]))
        elif k == "new":
            if not trees[t]:
                n += 1
                op(k, t, "n%d" % n)
                trees[t] = [N("n%d" % n)]
        elif k == "extract":
            cands = list(walk(trees[t]))
            if cands and not trees[u] and t != u:
                x = src.pick(cands)
                op(k, t, x.name, u)
                siblings(trees[t], x).remove(x)
                x.parent = None
                trees[u] = [x]
                moves += 1
        elif k in ("before", "after", "first", "last"):
            cands = list(walk(trees[t]))
            if t == u or len(trees[u]) != 1 or not cands:
                continue
            x = src.pick(cands)
            if k == "before" and not x.parent and x is trees[t][0]:
                continue
            op(k, t, x.name, u)
            y, = trees[u]
            trees[u] = []
            if k in ("first", "last"):
                y.parent = x
                x.kids.insert(0 if k == "first" else len(x.kids), y)
            else:
                y.parent = x.parent
                s = siblings(trees[t], x)
                s.insert(s.index(x) + (k == "after"), y)
            moves += 1
        elif k == "move":
            if not trees[t] and trees[u]:
                op(k, t, u)
                trees[t], trees[u] = trees[u], trees[t]
        elif k == "show":
            op(k, t)
            want.append(show(trees[t]))
        else:
            op("live", 0)
            want.append(str(sum(1 for f in trees + [b["forest"] for b in builders] for _ in walk(f))))
    for t in range(3):
        op("show", t)
        want.append(show(trees[t]))
    for b in range(2):
        op("b.show", b)
        want.append(show(builders[b]["forest"]))
    want.append("0")
    src.key = repr(ops)
    src.sample = "; ".join(show_ops(ops))
    src.nontrivial = moves >= 2
    got = env.unit("tree", *ops)
    if not isinstance(got, list):
        raise Fail("tree threw %r after %s" % (got, show_ops(ops)))
    got = [g.decode() for g in got]
    if got != want:
        i = next((i for i in range(min(len(got), len(want))) if got[i] != want[i]), -1)
        raise Fail("tree: answer %d is %r, expected %r\nafter %s" % (i, got[i:i + 1], want[i:i + 1], "; ".join(show_ops(ops))))

def f_element(src, env):
    attrs, kids = {}, []
    ops, want = [], []
    n = 0
    for _ in src.many(1, 25, 10):
        k = src.weighted([(5, "set"), (3, "get"), (2, "has"), (4, "add"), (4, "child")])
        a = src.pick(ATTRS)
        if k == "set":
            n += 1
            v = src.pick(["", "v%d" % n, "<&\"'>%d" % n])
            ops.append(pack(k, a, v))
            attrs[a] = v
            want.append(v)
        elif k == "get":
            ops.append(pack(k, a))
            want.append(attrs.get(a, ""))
        elif k == "has":
            ops.append(pack(k, a))
            want.append("1" if a in attrs else "0")
        elif k == "add":
            n += 1
            nm = src.pick(NAMES)
            kind = src.pick(["element", "element", "text"])
            ops.append(pack(k, nm, kind, str(n)))
            kids.append((nm if kind == "element" else None, n))
        else:
            nm = src.pick(NAMES)
            ops.append(pack(k, nm))
            want.append(next((str(i) for m, i in kids if m == nm), "-"))
    src.key = repr(ops)
    src.sample = "; ".join(show_ops(ops))
    src.nontrivial = len(attrs) >= 2 or len(kids) >= 2
    got = env.unit("xml_element", *ops)
    if not isinstance(got, list) or [g.decode() for g in got] != want:
        raise Fail("xml_element: got %r, expected %r after %s" % (got, want, show_ops(ops)))

PROPERTY = {
    "id": "C25",
    "rule": "parse: two nested elements and text; malformed: one fault is planted; soup: the text is XML by expat; tree: at least "
            "two subtrees are moved; element: at least two attributes or children",
    "families": [
        Family("parse", f_parse, 144000, rule="random trees written with random spelling, read back"),
        Family("malformed", f_malformed, 72000, rule="36 kinds of fault behind well-formed text"),
        Family("soup", f_soup, 144000, rule="token soup, against expat where expat accepts it"),
        Family("tree", f_tree, 120000, rule="histories over three trees and two builders against a list model, with link checks"),
        Family("element", f_element, 60000, rule="attributes and child lookup against dictionaries"),
    ],
}
