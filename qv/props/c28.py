"""C28: the version a file declares decides how it is translated."""
import re
from ..engine import Fail, Discard, Family
from ..xmltree import E, canon, diff, parse_fragment, text_of
from ..docgen import body_of
from ..docrun import tree, show_files, convert
from ..soup import document
from .c02 import dec, enc

ALL = [101, 102, 103, 104, 105, 106, 107]
KW = '<phrase role="%s">%s</phrase>'
def co(*ws):
    """Highlighted code: 'k:int i:a s:;' """
    names = {"k": "keyword", "i": "identifier", "s": "special", "n": "number", "c": "comment"}
    return " ".join(KW % (names[w[0]], w[2:]) for w in ws)
def img(ref, alt=None, more=""):
    return '<inlinemediaobject><imageobject><imagedata fileref="%s"%s></imagedata></imageobject>%s</inlinemediaobject>' % (
        ref, more, "<textobject><phrase>%s</phrase></textobject>" % alt if alt is not None else "")
def tab(title, head="a", cell="b", tag="table"):
    return ('<%s frame="all">%s<tgroup cols="1"><thead><row><entry><para>%s</para></entry></row></thead><tbody><row><entry><para>%s</para></entry></row></tbody></tgroup></%s>'
            % (tag, "<title>%s</title>" % title if title is not None else "", head, cell, tag))
def head(level, title): return '<bridgehead renderas="sect%d">%s</bridgehead>' % (level, title)
def items(*xs): return "".join("<listitem>%s</listitem>" % "".join("<simpara>%s</simpara>" % y for y in ((x,) if isinstance(x, str) else x)) for x in xs)
INT_A = KW % ("keyword", "int") + " " + KW % ("identifier", "a")

# In a paragraph: text, [(first version, XML or None for an error)]
INLINE = {
    "role": ("[role r b]", [(101, "[role r b]"), (106, '<phrase role="r">b</phrase>')]),
    "role name": ("[role a.b c]", [(101, "[role a.b c]"), (106, '<phrase role="a">.b c</phrase>'), (107, '<phrase role="a.b">c</phrase>')]),
    "role dash": ("[role a-b c]", [(101, "[role a-b c]"), (106, '<phrase role="a">-b c</phrase>'), (107, '<phrase role="a-b">c</phrase>')]),
    "role word": ("[role a_1 c]", [(101, "[role a_1 c]"), (106, '<phrase role="a_1">c</phrase>')]),
    "anchor bracket": ("[#a[b]c]t", [(101, '<anchor id="a[b"/>c]t'), (106, None)]),
    "image bracket": ("[$a.png [alt x[y]z]]", [(101, img("a.png [alt x[y", "a") + "z]]"), (105, "[$a.png [alt x[y]z]]"), (107, None)]),
    "image comment": ("[$a.png [/c]]", [(101, img("a.png [/c", "c") + "]"), (105, img("a.png", "a")), (106, img("a.png"))]),
    "image touching": ("[$a.png[alt q]]", [(101, img("a.png[alt q", "a") + "]"), (105, img("a.png", "q"))]),
    "image two": ("[$a.png [width 3][height 4]]", [(101, img("a.png [width 3", "a") + "[height 4]]"), (105, img("a.png", "a", ' width="3" height="4"')), (106, img("a.png", None, ' width="3" height="4"'))]),
    "call code": ("[tp `..`..c]", [(101, None), (106, '<code>' + KW % ("special", "..") + "</code>-c")]),
    "call bold": ("[tp [*a]..b]", [(101, '<emphasis role="bold">a</emphasis>-b')]),
    "call inner": ("[tp [*a..b]]", [(101, "[*a-b]"), (105, None)]),
    "call three": ("[tp a..b..c]", [(101, None)]),
    "call more words": ("[tp a b c]", [(101, "a-b c")]),
    "call open": ("[tp a \\[ b..c]", [(101, "a [ b-c")]),
    "comment close": ("k[/a ] b]c", [(101, "k b]c"), (106, None)]),
    "bold close": ("[*a ] b]", [(101, '<emphasis role="bold">a </emphasis> b]'), (106, None)]),
    "url comment": ("[@http://x[/c] y]", [(101, '<ulink url="http://x">y</ulink>')]),
    "link comment": ("[link a[/c]b text]", [(101, '<link linkend="a">b text</link>')]),
    "globalref": ("[globalref a b]", [(101, '<globalname alt="a">b</globalname>')]),
    "next mode": ("[!teletype]`int a`", [(101, "[!teletype]<code>%s</code>" % INT_A), (107, "<code>int a</code>")]),
    "python mode": ("z [!python]`def` `def`", [(101, "z [!python]<code>%s</code> <code>%s</code>" % ((KW % ("identifier", "def"),) * 2)),
                    (107, "z <code>%s</code> <code>%s</code>" % (KW % ("keyword", "def"), KW % ("identifier", "def")))]),
    "not": ("k[?!__nope__ yes]", [(101, "k"), (107, "k yes")]),
    "image attributes": ("[$a.png [alt words] [width 3in]]", [(101, img("a.png [alt words", "a") + " [width 3in]]"), (105, img("a.png", "words", ' width="3in"'))]),
    "image escape": ("[$a\\.b.png]", [(101, img("a.b.png", ".b")), (106, img("a.b.png"))]),
    "image alt escape": ("[$c.png [alt \\[x\\]]]", [(105, "[$c.png [alt [x]]]"), (106, img("c.png", "[x]"))]),
    "image alt": ("[$d/e.png]", [(101, img("d/e.png", "e")), (106, img("d/e.png"))]),
    "image spaces": ("[$ a b.png ]", [(101, img("a b.png ", "a b")), (105, img("a b.png", "a b")), (106, img("a b.png"))]),
    "url escape": ("[@http://x/a\\]b text]", [(101, '<ulink url="http://x/a\\">http://x/a\\</ulink>b text]'), (106, '<ulink url="http://x/a%5db">text</ulink>')]),
    "url space": ("[@http://x/a\\ b text]", [(101, '<ulink url="http://x/a\\">b text</ulink>'), (106, '<ulink url="http://x/ab">text</ulink>')]),
    "link escape": ("[link a\\.b text]", [(101, '<link linkend="a\\.b">text</link>'), (106, '<link linkend="a.b">text</link>')]),
    "link space": ("[link a\\ b]", [(101, '<link linkend="a\\">b</link>'), (106, '<link linkend="ab">ab</link>')]),
    "link bracket": ("[link [x] y]", [(101, '<link linkend="[x">[x</link> y]'), (106, None)]),
    "anchor escape": ("[#a\\.b]t", [(101, '<anchor id="a\\.b"/>t'), (106, '<anchor id="a.b"/>t')]),
    "anchor space": ("[#a b]t", [(101, '<anchor id="a b"/>t'), (107, None)]),
    "pair": ("l [zzz] r", [(101, "l [zzz] r")]),
    "open": ("l [ r", [(101, "l [ r"), (106, None)]),
    "close": ("l ] r", [(101, "l ] r"), (106, None)]),
    "bold note": ("b [* [note x]] c", [(101, 'b <emphasis role="bold">[note x</emphasis>] c'), (106, 'b <emphasis role="bold">[note x]</emphasis> c'), (107, None)]),
    "italic heading": ("b ['[h3 x]] c", [(101, 'b <emphasis>[h3 x</emphasis>] c'), (106, 'b <emphasis>[h3 x]</emphasis> c'), (107, None)]),
    "bang": ("[!x] y", [(101, "[!x] y"), (107, None)]),
    "call escape": ("[tp a\\..b..c]", [(101, None), (105, "a..b-c")]),
    "call brackets": ("[tp [x..y]..c]", [(101, "[x-y..c]"), (105, "[x..y]-c")]),
    "call": ("[tp a..b]", [(101, "a-b")]),
    "call words": ("[tp a b]", [(101, "a-b")]),
    "unicode": ("\\u03b1", [(101, "\u03b1")]),
    "simple": ("*b* /i/ _u_ =t=", [(101, '<emphasis role="bold">b</emphasis> <emphasis>i</emphasis> <emphasis role="underline">u</emphasis> <literal>t</literal>')]),
}

def para(x): return "<para>%s</para>" % x
LIST_AC = "<itemizedlist>%s</itemizedlist>"
# As blocks of their own.
BLOCK = {
    "block": ("[block one two]", [(101, para("[block one two]")), (106, "one two")]),
    "ordered_list": ("[ordered_list [a][b]]", [(101, para("[ordered_list [a][b]]")), (106, "<orderedlist>%s</orderedlist>" % items("a", "b"))]),
    "itemized_list": ("[itemized_list [a][b]]", [(101, para("[itemized_list [a][b]]")), (106, LIST_AC % items("a", "b"))]),
    "item blocks": ("[ordered_list [a\n\nb]]", [(101, para("[ordered_list [a") + para("b]]")), (106, "<orderedlist>%s</orderedlist>" % items(("a", "b")))]),
    "heading id": ("[heading:hid Some Title]", [(101, head(0, ":hid Some Title")), (106, head(0, "Some Title"))]),
    "h2 id": ("[h2:hid2 Other]", [(101, head(2, ":hid2 Other")), (106, head(2, "Other"))]),
    "h3 space": ("[h3: x y]", [(101, head(3, ": x y")), (106, head(3, "y")), (107, head(3, "x y"))]),
    "h4 markup": ("[h4 *b* __yes__]", [(101, head(4, '<emphasis role="bold">b</emphasis> 1'))]),
    "table id": ("[table:tabid Title\n[[a]]\n[[b]]\n]", [(101, tab(":tabid Title")), (105, tab("Title"))]),
    "table title": ("[table A [*b] & c\n[[a]]\n[[b]]\n]", [(101, tab("A [*b] &amp; c")), (106, tab('A <emphasis role="bold">b</emphasis> &amp; c'))]),
    "table line": ("[table Title [[a]][[b]]]", [(101, None), (106, tab("Title"))]),
    "table": ("[table\n[[a]]\n[[b]]\n]", [(101, tab(None, tag="informaltable"))]),
    "table paragraphs": ("[table\n[[a]]\n[[b\n\nc]]\n]", [(101, tab(None, cell="b</para><para>c", tag="informaltable"))]),
    "variablelist line": ("[variablelist A [[t][d]]]", [(101, None), (106, "<variablelist><title>A</title><varlistentry><term>t</term><listitem><para>d</para></listitem></varlistentry></variablelist>")]),
    "list paragraph": ("* item\n\n  more", [(101, LIST_AC % items(("item",)) + "<programlisting>%s</programlisting>" % co("i:more")), (106, None), (107, LIST_AC % items(("item", "more")))]),
    "list code": ("* item\n\n    code\n\n* c", [(101, LIST_AC % items(("item",)) + "<programlisting>%s</programlisting>" % co("i:code") + LIST_AC % items("c")), (106, None),
                  (107, LIST_AC % ("<listitem><simpara>item</simpara><programlisting>%s</programlisting></listitem>" % co("i:code") + items("c")))]),
    "nested list": ("[note\n* a\n* b\n]", [(101, "<note><para>* a * b</para></note>"), (107, "<note>%s</note>" % (LIST_AC % items("a", "b")))]),
    "nested rule": ("[note a\n\n----\n\nb]", [(101, "<note><para>a</para><para>----</para><para>b</para></note>"), (107, "<note><para>a</para><para/><para>b</para></note>")]),
    "block code": ("```\nx\n```", [(101, para("<programlisting>%s</programlisting>" % co("i:x"))), (106, "<programlisting>%s</programlisting>" % co("i:x"))]),
    "code in text": ("a ``x`` b", [(101, para("a <programlisting>%s</programlisting> b" % co("i:x"))), (106, para("a") + "<programlisting>%s</programlisting>" % co("i:x") + para("b"))]),
    "callout": ("  int a; /*< note >*/\n", [(101, "<programlisting>%s%s %s</programlisting>" % (INT_A, KW % ("special", ";"), KW % ("comment", "/*&lt; note &gt;*/"))),
                (107, '<programlisting>%s%s <co/></programlisting><calloutlist><callout><para>note</para></callout></calloutlist>' % (INT_A, KW % ("special", ";")))]),
    "section id": ("[section:x.y T]\n\n[endsect]", [(101, "<section><title>.y T</title></section>"), (107, "<section><title>T</title></section>")]),
    "section space": ("[section: sid T]\n\n[endsect]", [(101, "<section><title>sid T</title></section>"), (105, "<section><title>T</title></section>"), (107, "<section><title>sid T</title></section>")]),
    "macro again": ("[def __m@__ 1]\n[def __m@__ 2]\n\n__m@__", [(101, para("1")), (106, para("2"))]),
    "rule": ("---- w [x]\n\nz", [(101, "<para/>" + para("z")), (106, "<para/>" + para("[x]") + para("z"))]),
    "macro name": ("[def __a@\\b v]\n\nq __a@\\b r", [(101, para("q v r")), (106, para("q \\b v\\b r"))]),
    "pre lines": ("[pre\n\n  a\n b]", [(101, "<programlisting>a\n b</programlisting>"), (106, "<programlisting>\n  a\n b</programlisting>")]),
    "block lines": ("[block\na\n\nb\n]", [(101, para("[block a") + para("b ]")), (106, None)]),
    "block conditional": ("[?__yes__\na\n\nb\n]", [(106, None)]),
    "mode before block": ("[!python]\n```\ndef a\n```", [(101, para("[!python] <programlisting>%s</programlisting>" % co("i:def", "i:a"))), (106, para("[!python]") + "<programlisting>%s</programlisting>" % co("i:def", "i:a")),
                         (107, "<programlisting>%s</programlisting>" % co("k:def", "i:a"))]),
    "mode before code": ("[!python]\n\n  def a\n", [(101, para("[!python]") + "<programlisting>%s</programlisting>" % co("i:def", "i:a")), (107, "<programlisting>%s</programlisting>" % co("k:def", "i:a"))]),
    "list in note": ("[note\n* a\n\n  b\n]", [(101, "<note>%s%s</note>" % (para("* a"), para("b"))), (107, "<note>%s</note>" % (LIST_AC % items(("a", "b"))))]),
    "three cells": ("[variablelist\n[[t][d][e]]\n]", [(101, "<variablelist><title></title><varlistentry><term>t</term><listitem><para>d</para><para>e</para></listitem></varlistentry></variablelist>")]),
    "heading lines": ("[h2\nx\ny]", [(101, head(2, "x y"))]),
    "footnote": ("q[footnote one]", [(101, para("q<footnote><para>one</para></footnote>"))]),
    "missing template": ("[include:x [y]]", [(107, None)]),
    "wild xinclude": ("[xinclude *.xml]", [(107, None)]),
    "nested section": ("[note a\n\n[section X]\n\n]", [(107, None)]),
    "element id": ("[section:a$b T]\n\n[endsect]", [(101, "<section><title>$b T</title></section>"), (107, None)]),
    "code": ("  int a\n", [(101, "<programlisting>%s</programlisting>" % INT_A)]),
    "quote": ("[: a\n\nb]", [(101, "<blockquote><para>a</para><para>b</para></blockquote>")]),
}

def expect(spec, ver):
    """XML, None for an error, or False where nothing is specified."""
    r = False
    for v, x in spec[1]:
        if ver >= v: r = x
    return r

def usable(ver, table):
    return sorted(k for k, s in table.items() if isinstance(expect(s, ver), str))

class Build:
    """A set of files with probes, and what must come out."""
    def __init__(self, src):
        self.src, self.files, self.want, self.n = src, {}, [], 0
        self.used = set()
    def mark(self):
        self.n += 1
        return "mk%d" % self.n

    def probe(self, ver, kinds=("block", "inline")):
        """One probe as blocks: (text, XML)."""
        src = self.src
        if src.bool(0.5):
            k = src.pick(usable(ver, BLOCK))
            self.used.add((k, ver))
            spec = BLOCK[k]
            return spec[0].replace("@", str(self.n)), expect(spec, ver)
        t, x = self.inline(ver)
        return "p %s q" % t, para("p %s q" % x)

    def inline(self, ver, nested=False):
        """`nested`: inside brackets, where text can't hold any."""
        k = self.src.pick([k for k in usable(ver, INLINE) if not nested or not re.search(r"[][]", expect(INLINE[k], ver))])
        self.used.add((k, ver))
        return INLINE[k][0], expect(INLINE[k], ver)

    def put(self, text, xml):
        m = self.mark()
        self.want.append((m, xml))
        return "%s\n\n%s\n\n" % (m, text)

    def call(self, macros, templates):
        """A macro or template defined elsewhere: the rules of its own file."""
        src = self.src
        pool = [("m",) + x for x in macros] + [("t",) + x for x in templates]
        if not pool: return ""
        k, name, xml = src.pick(pool)
        return self.put("p %s q" % (name if k == "m" else "[%s]" % name), para("p %s q" % xml))

    def file(self, name, parent, depth, macros, templates):
        """`parent`: version of the file that includes this one."""
        src = self.src
        declared = src.pick(ALL + [107, 106, 105])
        top = parent is None
        how = src.weighted([(4, "before"), (4, "inside"), (0 if top else 3, "none"), (2, "undeclared")])
        num = "1.%d" % (declared - 100)
        # (the title is raw BoostBook before 1.6)
        if how == "before": ver, h = declared, "[quickbook %s]\n[article T%d]\n\n" % (num, self.n)
        elif how == "inside":
            ver, h = declared if top or parent >= 106 else parent, "[article T%d\n[quickbook %s]\n]\n\n" % (self.n, num)
        elif how == "undeclared":
            ver, h = 101 if top or parent >= 106 else parent, "[article T%d]\n\n" % self.n
        else: ver, h = parent, ""
        if how == "before" and not top and src.bool(0.3): h = "[quickbook %s]\n\n" % num
        src.label(how)
        # definitions of an included file stay in it, from 1.6
        macros, templates = list(macros), list(templates)
        if top:
            h += "[def __yes__ 1]\n[template tp[x y] [x]-[y]]\n\n"
        text = h
        for _ in src.many(2, 7, 3):
            k = src.weighted([(8, "probe"), (2, "macro"), (2, "template"), (3, "call"), (4 if depth else 0, "include"), (2 if depth and ver >= 106 else 0, "import"), (2, "snippet")])
            if k == "probe":
                text += self.put(*self.probe(ver))
            elif k == "macro":
                t, x = self.inline(ver, True)
                self.n += 1
                text += "[def __d%d__ %s]\n\n" % (self.n, t)
                macros.append(("__d%d__" % self.n, x))
            elif k == "template":
                t, x = self.inline(ver, True)
                self.n += 1
                text += "[template u%d[] %s]\n\n" % (self.n, t)
                templates.append(("u%d" % self.n, x))
            elif k == "call":
                text += self.call(macros, templates)
            elif k == "include":
                self.n += 1
                f = "f%d.qbk" % self.n
                self.files[f] = None
                sub = self.file(f, ver, depth - 1, macros, templates)
                text += "[include %s]\n\n" % f
                # the version of this file is in force again
                text += self.put(*self.probe(ver))
            elif k == "import":
                # only the definitions of an imported file count
                self.n += 1
                f = "i%d.qbk" % self.n
                v2 = src.pick(ALL)
                body = "[quickbook 1.%d]\n[article I]\n\n" % (v2 - 100)
                for _ in src.many(1, 3, 1):
                    t, x = self.inline(v2, True)
                    self.n += 1
                    body += "[template u%d[] %s]\n\n" % (self.n, t)
                    templates.append(("u%d" % self.n, x))
                self.files[f] = body
                text += "[import %s]\n\n" % f
                text += self.put(*self.probe(ver))
                text += self.call([], templates)
            elif k == "snippet":
                # the rules of the file that imports the code
                self.n += 1
                f = "s%d.cpp" % self.n
                t, x = self.inline(ver)
                self.n += 1
                self.files[f] = "//[sn%d\n//` p %s q\nint a;\n//]\n" % (self.n, t)
                text += "[import %s]\n\n" % f
                text += self.put("[sn%d]" % self.n, para("p %s q" % x) + (para("%s") if ver < 106 else "%s") % ("<programlisting>%s%s</programlisting>" % (INT_A, KW % ("special", ";"))))
        self.files[name] = text
        return ver

def flatten(root):
    out = []
    for k in body_of(root):
        if isinstance(k, E) and k.tag == "article":
            out += flatten(k)
        else:
            out.append(k)
    return out

def segments(nodes):
    segs, cur = {}, None
    for k in nodes:
        t = text_of(k).strip() if isinstance(k, E) and k.tag == "para" else ""
        if re.fullmatch(r"mk\d+", t):
            cur = segs.setdefault(t, [])
        elif cur is not None:
            cur.append(k)
    return segs

def compare(want, got):
    got = [k for k in got if not (isinstance(k, E) and text_of(k).strip() == "mkend")]
    return diff(*(canon(E("#body", {}, strip_ids(x)), flatten_code=False) for x in (parse_fragment(want), got)))

def strip_ids(nodes):
    for n in nodes:
        if isinstance(n, E):
            if n.tag in ("co", "callout", "calloutlist"):
                n.attrs = {}
            if n.tag == "bridgehead":
                n.attrs = {}
            if n.tag == "anchor":
                # (repeated anchors are numbered)
                n.attrs = {k: v.rstrip("0123456789") for k, v in n.attrs.items()}
            strip_ids(n.kids)
    return nodes

ARGS = ["m.qbk", "--output-file", "o.xml", "--no-pretty-print", "--no-self-linked-headers"]

def f_files(src, env):
    b = Build(src)
    b.file("m.qbk", None, 2, [], [])
    run_build(src, env, b)

def run_build(src, env, b):
    src.key = repr(sorted(b.files.items()))
    src.sample = {k: v for k, v in b.files.items()}
    for k, v in b.used: src.label("%s %d" % (k, v))
    res = env.run(b.files, ARGS)
    where = "%s\n%s" % (show_files(b.files), res.describe())
    if res.kind != "exit" or res.code:
        raise Fail("a correct document was rejected: " + where)
    root = tree(where, res)
    segs = segments(flatten(root))
    src.nontrivial = len(b.want) >= 2
    for m, xml in b.want:
        if m not in segs:
            raise Fail("%s is missing: %s\n%s" % (m, where, res.files["o.xml"].decode()))
        d = compare(xml, segs[m])
        if d:
            raise Fail("after %s: %s, expected\n%s\n%s\n%s" % (m, d, xml, where, res.files["o.xml"].decode()))
    return res

def f_errors(src, env):
    """One construct that some versions reject, at the end of a file."""
    b = Build(src)
    b.file("m.qbk", None, 2, [], [])
    # an error only counts where the file's version rejects the construct
    name = src.pick(sorted(k for t in (INLINE, BLOCK) for k, s in t.items() if any(x is None for _, x in s[1])))
    spec = INLINE.get(name) or BLOCK[name]
    ver = src.pick([v for v in ALL if expect(spec, v) is not False])
    text = "p %s q" % spec[0] if name in INLINE else spec[0].replace("@", "z")
    xml = expect(spec, ver)
    if name in INLINE and xml is not None: xml = para("p %s q" % xml)
    h = "[quickbook 1.%d]\n" % (ver - 100)
    target = src.pick(["m.qbk", "e.qbk", "d/e.qbk"])
    if target == "m.qbk":
        b.files = {}
        b.want, b.n = [], 0
        main = h + "[article T]\n\n[def __yes__ 1]\n[template tp[x y] [x]-[y]]\n\n"
        for _ in src.many(0, 2, 1): main += b.put(*b.probe(ver))
    else:
        main = b.files["m.qbk"]
        b.files[target] = h + src.pick(["", "[article E]\n\n"]) + "\n"
    m = b.mark()
    piece = "%s\n\n%s\n\nmkend\n" % (m, text)
    if target == "m.qbk":
        line = main.count("\n") + 3
        b.files["m.qbk"] = main + piece
    else:
        line = b.files[target].count("\n") + 3
        b.files[target] += piece
        b.files["m.qbk"] = main + "[include %s]\n" % target
    src.key = repr(sorted(b.files.items()))
    src.sample = {"construct": name, "version": ver, "files": dict(b.files)}
    src.label("%s %d" % (name, ver))
    src.nontrivial = True
    res = env.run(b.files, ARGS)
    where = "%s in version %d\n%s\n%s" % (name, ver, show_files(b.files), res.describe())
    if res.kind != "exit":
        raise Fail("the run failed: " + where)
    if xml is None:
        if res.code != 1:
            raise Fail("not rejected: " + where)
        if not re.search(r"(?m)^%s:%d: error:|^%s:%d: error:" % (re.escape(target), line, re.escape(target), line + 1), dec(res.err)) and not re.search(r"(?m)^%s:\d+: error:" % re.escape(target), dec(res.err)):
            raise Fail("the error isn't reported for %s: %s" % (target, where))
    else:
        if res.code:
            raise Fail("rejected: " + where)
        b.want.append((m, xml))
        segs = segments(flatten(tree(where, res)))
        d = compare(xml, segs.get(m, []))
        if d:
            raise Fail("%s, expected\n%s\n%s\n%s" % (d, xml, where, res.files["o.xml"].decode()))

def f_numbers(src, env):
    """Version numbers: which exist, and what a missing one means."""
    major, minor = src.pick([0, 1, 1, 1, 1, 1, 1, 2, 3, 10, 16, 255]), src.weighted([(6, src.int(0, 9)), (2, src.int(0, 99)), (1, src.pick([1, 6, 7, 107, 106, 263, 65536 + 6, 4294967296 + 7]))])
    num = src.pick(["%d.%d", "%d.%d", "%d.%d", "%d.0%d", "0%d.%d"]) % (major, minor)
    if src.bool(0.15):
        num = src.pick(["", "1", "1.", ".6", "x", "1.x", "1,6", "1.6.1", "-1.6", "1.-6", "1.6a", "+1.6", "1 6"])
    place = src.pick(["before", "inside", "included", "included inside", "compat", "none", "none included"])
    # The numbers that denote versions
    m = re.fullmatch(r"(\d+)\.(\d{1,2})", num)
    known = bool(m) and (int(m.group(1)), int(m.group(2))) in [(1, k) for k in range(0, 8)]
    ver = 100 + int(m.group(2)) if known else None
    probes = [k for k in INLINE if all(x is not None for _, x in INLINE[k][1])]
    names = [k for k in src.shuffled(sorted(probes))[:4]]
    body = lambda: "".join("mk%d\n\np %s q\n\n" % (i, INLINE[n][0]) for i, n in enumerate(names)) + "mk99\n"
    pre = "[def __yes__ 1]\n[template tp[x y] [x]-[y]]\n\n"
    files, target, outer = {}, "m.qbk", None
    if place == "before": files["m.qbk"] = "[quickbook %s]\n[article T]\n\n%s%s" % (num, pre, body())
    elif place == "inside": files["m.qbk"] = "[article T\n[quickbook %s]\n]\n\n%s%s" % (num, pre, body())
    elif place == "compat": files["m.qbk"] = "[article T\n[quickbook 1.7]\n[compatibility-mode %s]\n]\n\n%s%s" % (num, pre, body())
    elif place == "none": files["m.qbk"] = "[article T]\n\n%s%s" % (pre, body())
    else:
        outer = src.pick(ALL)
        target = "n.qbk"
        files["m.qbk"] = "[quickbook 1.%d]\n[article T]\n\n%s[include n.qbk]\n" % (outer - 100, pre)
        files["n.qbk"] = {"included": "[quickbook %s]\n%s" % (num, src.pick(["", "[article N]\n"])), "included inside": "[article N\n[quickbook %s]\n]\n" % num, "none included": src.pick(["", "[article N]\n"])}[place] + "\n" + body()
    src.key = repr(files)
    src.sample = dict(files)
    src.label(place + (" known" if known else " unknown"))
    src.nontrivial = True
    res = env.run(files, ARGS)
    where = "%s\n%s" % (show_files(files), res.describe())
    if res.kind != "exit": raise Fail("the run failed: " + where)
    err = dec(res.err)
    warned = re.search(r"(?m)^%s(:\d+)?: warning: Quickbook version undefined\. Version 1\.1 is assumed" % re.escape(target), err)
    if place == "none": known, ver, undefined = True, 101, True
    elif place == "none included":
        known = True
        undefined = outer >= 106 and files["n.qbk"].startswith("[article")
        ver = 101 if undefined else outer
    elif place == "included inside":
        undefined = False
        if outer < 106:
            if m: known, ver = True, outer  # not used
            elif known is False and not m: raise Discard("a number that isn't one, in document information that isn't used")
    else: undefined = False
    if place == "compat" and known: ver = 107
    if not known:
        if not m and place.startswith("included"): raise Discard("not a version, so text")
        if res.code != 1: raise Fail("the version %r isn't rejected: %s" % (num, where))
        if "o.xml" in res.files: raise Fail("an unknown version, and yet an output: " + where)
        if m and not re.search(r"(?m)^%s(:\d+)?: error: Unknown version: %d\.%d$" % (re.escape(target), int(m.group(1)), int(m.group(2))), err):
            raise Fail("no error for the version %s: %s" % (num, where))
        return
    if bool(warned) != undefined: raise Fail("the warning about a missing version %s: %s" % ("is missing" if undefined else "is not due", where))
    if ver == 100: ver = 101  # (1.0 has the rules of 1.1 here)
    if any(expect(INLINE[n], ver) is False for n in names):
        raise Discard("not specified")
    if res.code: raise Fail("rejected: " + where)
    segs = segments(flatten(tree(where, res)))
    for i, n in enumerate(names):
        xml = para("p %s q" % expect(INLINE[n], ver))
        d = compare(xml, segs.get("mk%d" % i, []))
        if d: raise Fail("%s under version %d: %s, expected\n%s\n%s\n%s" % (n, ver, d, xml, where, res.files["o.xml"].decode()))

ID = re.compile(rb'\b(id|linkend|linkends|arearefs)="[^"]*"')

def f_compat(src, env):
    """A compatibility mode changes ids only."""
    ver = src.pick(ALL + [107, 107, 106])
    doc, files, _ = document(src, ver=ver, errors=src.bool(0.2), raw=False, info=False)
    num = src.int(0, 7)
    first = doc.index("\n", doc.index("[quickbook")) + 1
    with_mode = doc[:first] + "[compatibility-mode 1.%d]\n" % num + doc[first:]
    # keep the lines of diagnostics equal
    without = doc[:first] + "[/ no compatibility mode]\n" + doc[first:]
    # included files say which they want
    fmt, args = src.pick([("boostbook", ARGS), ("boostbook", ARGS), ("onehtml", ["m.qbk", "--output-format", "onehtml", "--output-file", "o.html", "--no-pretty-print"])])
    args = args + ["--debug"]
    src.key = doc + repr(sorted(files.items())) + repr(num)
    src.sample = {"doc": with_mode[:800]}
    src.label("%d as %d" % (ver, 100 + num))
    a = env.run(dict(files, **{"m.qbk": without}), args)
    c = env.run(dict(files, **{"m.qbk": with_mode}), args)
    if "timeout" in (a.kind, c.kind): raise Discard("takes long")
    if "exit" not in (a.kind, c.kind): raise Discard("crashes (see C01)")
    src.nontrivial = len(doc) > 120
    where = "%s\n%s\n%s" % (show_files(dict(files, **{"m.qbk": with_mode})), a.describe(), c.describe())
    if (a.kind, a.code) != (c.kind, c.code): raise Fail("the status depends on the compatibility mode: " + where)
    if a.err != c.err: raise Fail("the diagnostics depend on the compatibility mode: " + where)
    if set(a.files) != set(c.files): raise Fail("the files depend on the compatibility mode: " + where)
    for k in a.files:
        if k.endswith(".html"):
            strip = lambda t: re.sub(rb'\b(id|href|name)="[^"]*"', b"", t)
        else:
            strip = lambda t: ID.sub(b"", t)
        x, y = strip(a.files[k]), strip(c.files[k])
        if num == ver - 100: x, y = a.files[k], c.files[k]
        if x != y:
            i = next((i for i in range(min(len(x), len(y))) if x[i] != y[i]), min(len(x), len(y)))
            raise Fail("%s changes with the compatibility mode at\n%r\n%r\n%s" % (k, x[max(0, i - 80):i + 200], y[max(0, i - 80):i + 200], where))

class Frame:
    def __init__(self, parent=None, old=None):
        self.syms, self.parent, self.old = {}, parent, old

class Scopes:
    """Templates of files up to 1.4 look names up in the calls that lead to
    them, later ones where they are defined; a call of a later template is not
    seen by the old templates it calls."""
    def __init__(self):
        self.stack = [Frame()]
        self.old = self.stack[0]
        self.calls = self.mixed = 0
    def find(self, name):
        f = self.stack[-1]
        while f:
            if name in f.syms: return f.syms[name]
            f = f.parent
        return None
    def expand(self, body, depth=0):
        out = ""
        for p in body:
            if isinstance(p, str):
                out += p
                continue
            name, args = p
            s = self.find(name)
            if s is None:
                out += "[%s]" % name
                continue
            self.calls += 1
            if depth > 25 or self.calls > 400: raise Discard("endless")
            ver, params, content, lexical = s
            caller = self.stack[-1]
            f = Frame(caller, self.old)
            self.stack.append(f)
            self.old = f
            if ver >= 105:
                self.old = f.old
                f.parent = lexical
            else:
                f.parent = f.old
            for n, (v, a) in zip(params, args):
                f.syms[n] = (v, [], a, caller)
            out += self.expand(content, depth + 1)
            self.old = f.old
            self.stack.pop()
        return out

def f_scopes(src, env):
    """Templates of files of several versions that call each other."""
    sc = Scopes()
    root = sc.stack[0]
    mainver = src.pick([107, 106])
    files = {}
    names = []
    def show(body):
        out = ""
        for p in body:
            if isinstance(p, str): out += p
            else: out += "[" + p[0] + (" " if p[1] else "") + "..".join(show(a) for _, a in p[1]) + "]"
        return out
    def body(ver, params, arg=False):
        out = []
        for _ in src.many(1, 2 if arg else 4, 1.2 if arg else 2.5):
            k = src.weighted([(3, "text"), (2, "name"), (4 if names and not arg else 0, "call")])
            if k == "text": out.append(src.pick(["w", "x", "y."] if not arg else ["q", "r"]))
            elif k == "name": out.append((src.pick(["a", "b", "c"] + params), []))
            else:
                n, ps = src.pick(names)
                out.append((n, [(ver, body(ver, params, True)) for _ in ps]))
        return out
    text = {}
    libs = [(mainver, "m.qbk")] + [(src.pick([104, 104, 103, 105, 106, 107]), "l%d.qbk" % i) for i in src.many(1, 4, 2.5)]
    order = []
    for n in ("a", "b"):
        if src.bool(0.6): order.append((n, []))
    for i in src.many(2, 7, 4.5):
        order.append(("t%d" % i, sorted({src.pick(["a", "b", "c"]) for _ in src.many(0, 2, 1.2)})))
    # the templates of a file are called in files that import it
    for ver, f in reversed(libs):
        t = "[quickbook 1.%d]\n[article T]\n\n" % (ver - 100)
        mine = [o for o in order if f == "m.qbk" or src.bool(0.6)]
        for n, params in mine:
            order.remove((n, params))
            b = body(ver, params)
            t += "[template %s[%s]%s]\n\n" % (n, " ".join(params), show(b))
            root.syms[n] = (ver, params, b, root)
            if n[0] == "t": names.append((n, params))
        text[f] = t
    imports = "".join("[import %s]\n" % f for v, f in reversed(libs) if f != "m.qbk")
    head, rest = text["m.qbk"].split("[article T]\n", 1)
    doc = head + "[article T]\n\n" + imports + rest
    want = []
    for _ in src.many(1, 4, 2.5):
        b = ["o "] + body(mainver, [])
        doc += show(b) + "\n\n"
        before = sc.calls
        want.append(sc.expand(b))
    del text["m.qbk"]
    vs = {v >= 105 for v, f in libs}
    src.key = src.sample = doc + "".join("----- %s\n%s" % x for x in sorted(text.items()))
    src.nontrivial = len(vs) > 1 and sc.calls > 4
    res = convert(env, doc, files=text)
    if b"error" in res.err or b"Error" in res.err:
        raise Fail("an error\n%s\n%s" % (src.sample, res.describe()))
    root_ = tree(doc, res)
    got = [re.sub(r"\s+", "", text_of(k)) for k in body_of(root_) if isinstance(k, E) and k.tag == "para"]
    want = [re.sub(r"\s+", "", w) for w in want]
    if got != want:
        raise Fail("the templates give %r, not %r\n%s" % (got, want, src.sample))

PROPERTY = {
    "id": "C28",
    "rule": "at least two constructs that depend on the version, or a version number that decides the outcome; scopes: more than four calls and both kinds of scoping",
    "families": [
        Family("files", f_files, 6000, rule="constructs of every version in files of every version that include and import each other, with macros, templates and snippets defined in one and used in another"),
        Family("errors", f_errors, 2000, rule="a construct that some versions reject, in a main or included file of any version"),
        Family("numbers", f_numbers, 1500, rule="version numbers that exist and do not, in the main file, an included file or as a compatibility mode, or none"),
        Family("scopes", f_scopes, 4000, rule="templates of files up to 1.4 and later calling each other, with parameters that share the names of other templates, against an interpreter"),
        Family("compat", f_compat, 2000, rule="documents of every construct with and without a compatibility mode"),
    ],
}
