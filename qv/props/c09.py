"""C09: macros expand everywhere they are in scope and conditionals follow
them."""
import re
from ..engine import Fail, Discard, Family
from ..docgen import Gen, header, VERSIONS, body_of
from ..docrun import convert, compare, PLAIN, tree
from ..refphrase import Ref, Bad, Unsure
from ..xmltree import E, merge, elements, text_of

NAMES = ["foo", "fo", "foo1", "_a_", "__x__", "__x", "a+b", "a+", "c#", "x.y", "\u00e9", "$v", "na\u00efve", "12", "-", "K", "foo-bar", "x_", "%", "&", "b<c", ";z",
         "\u65e5\u672c", "f\u043f", "q*", "o/p", "=e"]

def soup_of(src, names, depth=0, lo=1, hi=10, mean=5, cond=True):
    out = ""
    for _ in src.many(lo, hi, mean):
        k = src.weighted([(6, "name"), (5, "text"), (2, "frag"), (3, "sep"), (2, "mark"), (2 if depth < 3 else 0, "inline"), (3 if cond and depth < 3 else 0, "cond"),
                          (1, "esc"), (1, "comment")])
        if k == "name":
            out += src.pick(names)
        elif k == "frag":
            n = src.pick(names)
            out += n[:src.int(1, len(n))]
        elif k == "text":
            out += src.pick(["alpha", "B", "9", "_", "w-w", "\u00fc"])
        elif k == "sep":
            out += src.pick([" ", " ", "  ", ".", ",", "\n", ")", "("])
        elif k == "mark":
            out += src.pick("*/_=")
        elif k == "inline":
            out += "[" + src.pick(["*", "'", "_", "^", "-", '"', "~"]) + src.pick([" ", ""]) + soup_of(src, names, depth + 1, 0, 5, 2, cond) + "]"
        elif k == "cond":
            m = src.pick(names)
            neg = src.bool(0.3)
            out += "[?" + ("!" if neg else "") + src.pick(["", " ", "[/c]"]) + m + src.pick([" ", "  ", "\t", "\n"]) + soup_of(src, names, depth + 1, 0, 5, 2, cond)
            out += "]"
        elif k == "esc":
            n = src.pick(names)
            out += "\\" + n[0] + n[1:] if not n[0].isalnum() and n[0].isascii() else "\\-"
        else:
            out += "[/ " + src.pick(names) + "]"
    return out

def f_soup(src, env):
    ver = src.pick([107, 107, 106, 105, 104, 101])
    pool = src.shuffled(NAMES)[:src.int(2, 6)]
    # related names make the longest match matter
    macros = {}
    uses = 0
    doc = header(ver)
    want = []
    defs = 0
    for step in src.many(2, 8, 5):
        if src.bool(0.5) or step == 0:
            name = src.pick(pool)
            body = src.weighted([(3, ""), (0, "")]) if src.bool(0.1) else soup_of(src, pool, 1, 1, 5, 2, cond=src.bool(0.3))
            # the definition must not look like something else
            body = body.strip(" \n\t")
            text = "[def %s %s]" % (name, body)
            text = text + "\n"
            r = Ref(text, ver, macros)
            try:
                end = r.define(0)
            except (Bad, RecursionError):
                raise Discard("the definition is in error")
            except Unsure:
                raise Discard("outside the reference's domain")
            if end != len(text) - 1:
                raise Discard("the definition ends early")
            uses += r.uses
            defs += 1
            doc += text + "\n" * src.int(0, 1)
        elif src.bool(0.2):
            # a definition that depends on another
            text = "[?%s%s [def %s %s]]\n\n" % ("!" if ver >= 107 and src.bool(0.4) else "", src.pick(pool), src.pick(pool), src.pick(["v9", "[* v8]", src.pick(pool)]))
            r = Ref(text, ver, macros)
            try:
                r.cond(0)
            except (Unsure, Bad):
                raise Discard("outside the reference's domain")
            doc += text
            src.label("conditional definition")
        else:
            text = "o " + soup_of(src, pool)
            if re.search(r"\n[ \t]*\n", text) or re.search(r"\\\n|\\n|\n[ \t]*\[def", text):
                raise Discard("more than a paragraph")
            r = Ref(text + "\n\n", ver, macros)
            try:
                w = r.document()
            except (Bad, RecursionError):
                raise Discard("the paragraph is in error")
            except Unsure:
                raise Discard("outside the reference's domain")
            uses += r.uses
            want += w
            doc += text + "\n\n"
    src.key = doc
    src.sample = doc
    src.nontrivial = uses > 0 and len(want) > 0
    if uses > 3: src.label("more than 3 expansions")
    if "[?" in doc: src.label("conditional")
    res = convert(env, doc)
    compare(doc, want, res)

def setup_macros(src, g, names, ver, ctx="f"):
    """Definitions of the names, expanded at their place; returns source."""
    out = ""
    for n in names:
        if src.bool(0.1):
            s, nodes = "", []
        else:
            s, nodes = g.phrase(2, 1, 4, 2, one_line=True, ctx=ctx, start=True)
        if s.startswith("[/"):
            s, nodes = "o" + s, ["o"] + nodes
        out += "[def %s %s]\n" % (n, s)
        if not (ver < 106 and n in g.macros):
            g.macros[n] = nodes
            g.macro_names = list(g.macros)
    return out

MNAMES = ["__m1__", "m-1_", "__m2__", "__m3__", "M+1", "__\u00e9"]

class CondGen(Gen):
    """Adds conditionals to the phrases."""
    BASE_PHRASE = dict(Gen.BASE_PHRASE, macro=12, cond=6)
    def p_cond(self, depth, ctx, ol):
        src = self.src
        neg = self.ver >= 107 and src.bool(0.3)
        defined = src.bool(0.6) and self.macros
        name = src.pick(sorted(self.macros)) if defined else src.pick(["__zz__", "__m", "M", "__m1___"])
        s, n = self.phrase(depth - 1, 1, 3, 2, ol, ctx)
        self.count("cond kept" if bool(defined) != neg else "cond dropped")
        return "[?" + (src.pick(["! ", "!", "!  "]) if neg else src.pick(["", " ", "  ", "[/c]"])) + name + " " + s + "]", ([" "] + n) if bool(defined) != neg else [], False

def f_documents(src, env):
    """Macros and conditionals in every kind of construct."""
    ver = src.pick(VERSIONS)
    g = CondGen(src, ver, {"role": 2 if ver >= 106 else 0, "url": 2, "link": 1, "footnote": 1})
    doc = header(ver)
    doc += setup_macros(src, g, MNAMES[:src.int(1, 5)], ver)
    want = []
    for _ in src.many(1, 3, 2):
        s, n = g.blocks(2, 1, 3, 2)
        want += n + [E("para", {}, ["sep"])]
        doc += "\n" + s + "\n\nsep\n\n"
        if src.bool(0.4):
            doc += setup_macros(src, g, [src.pick(MNAMES)], ver)
    src.key = src.sample = doc
    src.nontrivial = g.counts.get("macro", 0) + g.counts.get("cond", 0) > 0
    for k in ("macro", "cond kept", "cond dropped"):
        if g.counts.get(k): src.label(k)
    res = convert(env, doc)
    compare(doc, want, res)

def junk(src, ver, g):
    """Phrase content with side effects."""
    out = ""
    for _ in src.many(1, 5, 3):
        k = src.weighted([(3, "def"), (3, "tmpl"), (2, "foot"), (2, "anchor"), (2, "phrase"), (2, "head"), (1, "link"), (1, "image"), (1, "call"), (1, "mode"), (1, "err"), (1, "inc"), (1, "code")])
        if k == "def": out += "[def %s junk]" % src.pick(["__m1__", "__new__", "word", "alpha"])
        elif k == "tmpl": out += "[template %s[] junk]" % src.pick(["t1", "t2", "t9"])
        elif k == "foot": out += "[footnote junk]"
        elif k == "anchor": out += "[#%s]" % src.pick(["anc", "t.f0", "junk", "t.h0", "t.alpha"])
        elif k == "phrase": out += g.phrase(2, 1, 3, 2)[0]
        elif k == "head": out += "[h%d %s]" % (src.int(1, 6), src.pick(["alpha", "beta", "junk"]))
        elif k == "link": out += "[link junk j][@junk]"
        elif k == "image": out += "[$junk.png]"
        elif k == "call": out += "[%s]" % src.pick(["t1", "t2"])
        elif k == "mode": out += "`junk`"
        elif k == "err": out += "[import nofile.qbk]"
        elif k == "inc": out += "[include nofile.qbk]"
        else: out += "``junk``"
        out += " "
    return out

def f_dropped(src, env):
    """A conditional that isn't kept leaves no trace."""
    ver = src.pick([107, 106, 106, 105, 104])
    g = Gen(src, ver, {"footnote": 3, "url": 1, "link": 1})
    g.macros = {"__m1__": ["one"]}
    g.macro_names = ["__m1__"]
    pre = "[def __m1__ one]\n[template t1[] the t1]\n[template t2[] the t2 [footnote n]]\n\n"
    def part():
        return g.blocks(2, 1, 2, 1.5)[0]
    a, c = part(), part()
    w1 = g.phrase(1, 1, 3, 2, one_line=True)[0]
    j = junk(src, ver, g)
    neg = ver >= 107 and src.bool(0.3)
    cond = "[?%s %s %s]" % ("!" if neg else "", "__m1__" if neg else src.pick(["__no__", "__m", "__m1"]), j)
    place = src.pick(["para", "inline", "cell", "item", "own"])
    wait = src.pick(["", "", "[#pend]", " [#pend]", "[#pend][#pend2]"])   # anchors still waiting for their place
    cond = wait + cond + src.pick(["", "[#then]"])
    tail = src.pick(["", " __m1__ [t1] [t2] alpha `x` [#end] z", "[footnote after]", " [t9x"[:0]])
    def doc(x):
        if place == "para": mid = "o " + w1 + x + " p" + tail
        elif place == "inline": mid = "o [* " + "k " + x + "] p" + tail
        elif place == "cell": mid = "[table A\n[[a][b " + x + "]]\n[[c " + x + "][d]]\n]\n\no" + tail
        elif place == "item": mid = "* item " + x + "\n* next" + tail
        elif place == "title": mid = "[h2 head " + x + "]\n\no" + tail
        else: mid = "o" + x + tail
        return header(ver) + pre + a + "\n\nsep\n\n" + mid + "\n\nsep\n\n" + c + "\n\n[h3 alpha] q" + "\n"
    i, k = cond.index("[?"), cond.rindex("]") + 1
    if cond.endswith("[#then]"):
        k = len(cond) - len("[#then]")
    d1, d2 = doc(cond), doc(cond[:i] + cond[k:])
    src.key = d1
    src.sample = d1
    src.nontrivial = True
    src.label(place)
    r1, r2 = convert(env, d1, ["--no-pretty-print"]), convert(env, d2, ["--no-pretty-print"])
    norm = lambda r: re.sub(rb"last-revision=\"[^\"]*\"", b"", re.sub(rb"[ \t\r\n]+", b" ", r.files["o.xml"])).replace(b" <", b"<").replace(b"> ", b">")
    x, y = norm(r1), norm(r2)
    if x != y:
        raise Fail("the dropped conditional left a trace:\n%s\n--- with it\n%s\n--- without\n%s" % (d1, r1.files["o.xml"].decode("utf-8", "replace"), r2.files["o.xml"].decode("utf-8", "replace")))
    if re.sub(rb":\d+:", b"::", r1.err) != re.sub(rb":\d+:", b"::", r2.err):
        raise Fail("the dropped conditional changed the diagnostics:\n%s\n%s\n%s" % (d1, r1.describe(), r2.describe()))

def f_defines(src, env):
    """-D acts like a definition at the start of the document."""
    ver = src.pick([107, 106, 105, 103])
    if src.bool(0.15):
        # names with all kinds of characters
        name = src.pick([n for n in NAMES if "=" not in n] + ["a(b", "\"q", "a,b", "x:y", "~", "!b", "\U0001f600", "a" * 200])
        doc = header(ver) + "alpha %s omega\n\n[? %s yes] then [*%s]\n" % (name, name, name)
        if ver < 106 or name in ("-", "q*", "~", "!b"):
            doc = header(ver) + "alpha %s omega\n\n" % name
        src.key = src.sample = doc
        src.label("names")
        src.nontrivial = True
        res = convert(env, doc, list(PLAIN) + src.pick([["-D", name + "=value"], ["--define", name + "=value"], ["--define=" + name + "=value"], ["-D", name + " = value"]]))
        want = [E("para", {}, ["alpha value omega"])]
        if "yes" in doc:
            want.append(E("para", {}, ["yes then ", E("emphasis", {"role": "bold"}, ["value"])]))
        compare(doc, want, res)
        return
    g = CondGen(src, ver, {"macro": 20})
    args, n = list(PLAIN), 0
    names = MNAMES[:src.int(1, 4)]
    for nm in names:
        n += 1
        kind = src.pick(["value", "value", "empty", "markup", "sp"])
        if kind == "value":
            w = g.plain_words()
            nodes, d = [w], "%s=%s" % (nm, w)
        elif kind == "empty":
            nodes, d = [], nm + src.pick(["", "="])
        elif kind == "markup":
            # the definitions are read by the oldest rules
            w = g.word()
            s, nd = src.pick([("[* %s]" % w, [E("emphasis", {"role": "bold"}, [w])]), ("`x`", [E("code", {}, ["x"])]), ("\\[" + w, ["[" + w]), ("&" + w + "<", ["&" + w + "<"]),
                              ("*k*", [E("emphasis", {"role": "bold"}, ["k"])]), ("a=b", ["a=b"])])
            nodes, d = nd, nm + "=" + s
        else:
            w = g.word()
            nodes, d = [w], " %s = %s" % (nm, w)
        g.macros[nm] = nodes
        args += src.pick([["-D", d], ["--define", d], ["--define=" + d], ["-D" + d]]) if d[0] != " " else ["-D", d]
    g.macro_names = list(g.macros)
    doc = header(ver)
    want = []
    for _ in src.many(1, 3, 1.5):
        s, nn = g.blocks(2, 1, 3, 2)
        want += nn + [E("para", {}, ["sep"])]
        doc += s + "\n\nsep\n\n"
        if src.bool(0.4):
            doc += setup_macros(src, g, [src.pick(MNAMES)], ver)
    src.key = doc + repr(args)
    src.sample = repr(args) + "\n" + doc
    src.nontrivial = g.counts.get("macro", 0) + g.counts.get("cond", 0) > 0
    res = convert(env, doc, args)
    compare(doc + "\n" + repr(args), want, res)

PROPERTY = {
    "id": "C09",
    "rule": "at least one macro is expanded or one conditional is decided",
    "families": [
        Family("soup", f_soup, 6000, rule="definitions, redefinitions, overlapping names, marks, nested conditionals and definitions inside them, against the reference reader"),
        Family("documents", f_documents, 4000, rule="macro uses and conditionals in every kind of construct with the expected tree"),
        Family("dropped", f_dropped, 3000, rule="a dropped conditional full of definitions, anchors, footnotes and headings against the same document without it"),
        Family("defines", f_defines, 2500, rule="-D definitions of all forms with the expected tree"),
    ],
}
