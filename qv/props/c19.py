"""C19: HTML carries the same content as the BoostBook it is made from."""
import re
from urllib.parse import urljoin
from ..engine import Fail, Discard, Family
from ..docgen import Gen, VERSIONS, header
from ..docrun import convert, tree, show_files
from ..xmltree import E, diff, walk, merge, elements
from .. import htmlmodel as hm

RAW_INLINE = ["<emphasis role=\"strong\">a &amp; b</emphasis>", "<emphasis role=\"odd\">x</emphasis>", "<superscript>2</superscript>", "<subscript>i</subscript>",
              "<sbr/>", "<quote>q</quote>", "<classname>C&lt;T&gt;</classname>", "<functionname>f</functionname>", "<phrase role=\"k\">p</phrase>", "<phrase>r</phrase>", "&#233;", "<replaceable>v</replaceable>",
              "<unknown>text</unknown>", "<ulink>no url</ulink>", "<link>no end</link>", "<xyz a=\"b\"><code>c</code></xyz>", "<literal id=\"rid\">l</literal>",
              "<inlinemediaobject><imageobject><imagedata fileref=\"i.png\"/></imageobject><textobject><phrase role=\"alt\">a &lt; &quot;b&quot; <emphasis>c</emphasis></phrase></textobject></inlinemediaobject>",
              "<inlinemediaobject><imageobject><imagedata fileref=\"a&amp;b.png\"/></imageobject></inlinemediaobject>", "<ulink url=\"http://h/?a=1&amp;b=&quot;2&quot;\">u</ulink>", "<!-- comment --> z", "<![CDATA[a<b]]>", "<code><![CDATA[&amp;<x>]] ]]]]></code>", "<![CDATA[]]>e"]
RAW_BLOCK = ["<para>x<![CDATA[ <b> & ]]>y</para>", "<sidebar><para>side</para></sidebar>", "<sidebar role=\"blurb\"><para>blurb</para></sidebar>", "<blockquote><para>bq</para></blockquote>",
             "<bridgehead renderas=\"sect6\">six</bridgehead>", "<bridgehead renderas=\"sect0\">zero</bridgehead>", "<bridgehead>none</bridgehead>", "<bridgehead renderas=\"sect22\">long</bridgehead>",
             "<para role=\"r\">role</para>", "<simpara>s</simpara>", "<important><para>i</para></important>", "<orderedlist><listitem>a</listitem><listitem id=\"li\">b</listitem></orderedlist>",
             "<informaltable><tgroup cols=\"2\"><tbody><row><entry role=\"x\">a</entry><entry>b</entry></row></tbody></tgroup></informaltable>",
             "<table id=\"rt\"><title>T</title><tgroup cols=\"1\"><thead><row id=\"rr\"><entry id=\"re\">h</entry></row></thead><tbody><row><entry role=\"y\">c</entry></row></tbody></tgroup></table>",
             "<table><title>no group</title></table>",
             "<variablelist id=\"vl\"><varlistentry><term>t</term><listitem><para>d</para></listitem></varlistentry><varlistentry><term>alone</term></varlistentry></variablelist>",
             "<programlisting>a\n  b &lt;c&gt;\n</programlisting>", "<calloutlist><callout><para>no id</para></callout></calloutlist>",
             "<para>x <co linkends=\"zz\"/> y</para>", "<para>x <co linkends=\"rc\" id=\"rb\"/></para><calloutlist><callout id=\"rc\"><para>text</para></callout><callout id=\"rd\"><para>other</para></callout></calloutlist>",
             "<warning/>", "<programlisting/>", "<para/>", "<para>a<anchor id=\"raw_anchor\"/>b</para>"]

class Html(Gen):
    """Documents with targets, links to them, images, footnotes, callouts."""
    def __init__(self, src, ver, raw=True, **kw):
        ph = {"footnote": 4, "link": 5, "url": 5, "ref": 2, "image": 2, "anchor": 3, "raw": 3 if raw else 0}
        bl = {"callouts": 3 if ver >= 107 else 0, "rawblock": 2 if raw else 0, "heading": 4}
        ph.update(kw.get("phrase") or {})
        bl.update(kw.get("block") or {})
        Gen.__init__(self, src, ver, phrase=ph, block=bl)
        self.raw = raw
        self.targets = ["t"]
        self.links = []
        self.serial = 0
        self.once = set()

    def p_image(self, depth, ctx, ol):
        f = self.src.pick(["i.png", "d/e.png", "../x.gif", "http://h/i.png", "boost:/i.png"])
        return "[$" + f + "]", [], True
    def p_anchor(self, depth, ctx, ol):
        self.serial += 1
        a = "anch%d" % self.serial
        self.targets.append(a)
        return "[#" + a + "]" + self.word(), [], True
    def p_link(self, depth, ctx, ol):
        # filled in when all targets are known
        n = len(self.links)
        self.links.append(self.src.draw(1000))
        if self.src.bool(0.2):
            tail = ""
        else:
            tail = " " + self.phrase(depth - 1, 1, 3, 2, ol, ctx + "lf", start="hard")[0]
        return "[link @@%d@@%s]" % (n, tail), [], True
    def p_unicode(self, depth, ctx, ol):
        s, n, t = Gen.p_unicode(self, depth, ctx, ol)
        if n and ord(n[0]) in (0x80, 0x7f, 0x10ffff):
            # HTML takes these character references for others
            s = "\\u00e9"
        return s, n, t
    def p_raw(self, depth, ctx, ol):
        r = self.pickraw(RAW_INLINE)
        if "a" in ctx or "t" in ctx or r is None:
            return "w", ["w"], True
        return "'''" + r + "'''", [], False
    def pickraw(self, pool):
        """Those with ids are used once."""
        r = self.src.pick(pool)
        if "id=" in r:
            if r in self.once:
                return None
            self.once.add(r)
        return r
    def b_rawblock(self, depth, ctx, inlist, nested):
        r = self.pickraw(RAW_BLOCK)
        if r is None or inlist:
            return self.b_para(depth, ctx, inlist, nested)
        if self.ver >= 106 and self.src.bool(0.5):
            # not in a paragraph
            return "\n\n[block '''" + r + "''']\n\n", []
        return "\n\n'''" + r + "'''\n\n", []
    def b_callouts(self, depth, ctx, inlist, nested):
        if inlist or nested or "a" in ctx:
            return self.b_para(depth, ctx, inlist, nested)
        s = "\n\n``\n"
        for i in self.src.many(1, 4, 2):
            s += "int a%d; " % i
            k = self.src.weighted([(3, "co"), (1, "none"), (1, "line"), (1, "two")])
            t = self.src.pick(["note", "*bold* x & y", "see [link t top]", "a\n\n   b", "one[footnote in callout]"])
            if k == "co":
                s += "/*< %s >*/" % t
            elif k == "line":
                s += "/*<< %s >>*/" % t
            elif k == "two":
                s += "/*< %s >*/ + /*< other >*/" % t
            s += "\n"
        self.count("callouts")
        return s + "``\n\n", []

    def finish(self, s):
        return re.sub("@@(\\d+)@@", lambda m: self.target(self.links[int(m.group(1))]), s)
    def target(self, n):
        t = self.targets + ["nowhere"]
        return t[n % len(t)]

    def section_title(self):
        s, _ = self.phrase(1, 1, 4, 2, one_line=True, ctx="t", start="hard")
        # neither an id nor a footnote of its own line
        if self.src.bool(0.1):
            s += "[footnote title note]"
        return "w " + s
    def sections(self, depth, parent, lo=0, hi=3, mean=1.2):
        out = ""
        for _ in self.src.many(lo, hi, mean):
            self.serial += 1
            name = "s%d" % self.serial
            full = parent + "." + name
            self.targets.append(full)
            out += "[section:%s %s]\n\n" % (name, self.section_title())
            if self.src.bool(0.9):
                out += self.blocks(2, 1, 3, 1.5)[0] + "\n\n"
            if depth > 0:
                out += self.sections(depth - 1, full, 0, 3, 0.8)
            out += "[endsect]\n\n"
        return out

INFO = ["[authors [Doe, J & K], [Roe, \u00c9ric]]", "[copyright 2001, 2003-2005 A < B]", "[license See *this*.]", "[license see[footnote *license* note]]", "[version 1.0]", "[copyright 1999 Z]", "[biblioid isbn 123]",
        "[last-revision yesterday]", "[purpose To *try*]", "[category x]"]

def esc(ver, s):
    """Before 1.6 titles and most of the information are BoostBook."""
    return s if ver >= 106 else s.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;").replace("\"", "&quot;")

def info(src, ver):
    return "".join("\n  " + (i if "*" in i else esc(ver, i)) for i in sorted(set(src.pick(INFO) for _ in src.many(0, 4, 1.2))))

def raw_info(src):
    """Information the header has no attribute for."""
    txt = lambda: src.pick(["a", "B &amp; c", "<emphasis>em</emphasis> t", "&#233;", "&lt;x&gt;", "d <phrase role=\"r\">e</phrase>", "<ulink url=\"http://h/\">u</ulink>", ""])
    def name():
        parts = ["<%s>%s</%s>" % (k, txt(), k) for k in ("surname", "lineage", "honorific", "firstname") if src.bool(0.6)]
        s = src.pick(["", "\n", " "]).join(parts)
        return "<personname>" + s + "</personname>" if src.bool(0.3) else s
    out = []
    for _ in src.many(1, 6, 3):
        k = src.pick(["author", "editor", "othercredit", "collab", "corpauthor", "corpcredit", "copyright", "legalnotice", "pubdate", "authorgroup", "abstract"])
        cl = src.pick(["", "", " class=\"other\"", " class=\"a&amp;b\""])
        one = lambda k: {"author": lambda: "<author>%s</author>" % name(), "editor": lambda: "<editor>%s</editor>" % name(),
               "othercredit": lambda: "<othercredit%s>%s</othercredit>" % (cl, name()),
               "collab": lambda: "<collab>%s</collab>" % src.pick(["<collabname>%s</collabname>" % txt(), "<affiliation>x</affiliation><collabname>%s</collabname>" % txt(), "none"]),
               "corpauthor": lambda: "<corpauthor>%s</corpauthor>" % txt(), "corpcredit": lambda: "<corpcredit%s>%s</corpcredit>" % (cl, txt()),
               "copyright": lambda: "<copyright>%s%s</copyright>" % ("".join("<year>%d</year>" % (2000 + src.draw(20)) for _ in src.many(0, 3, 1)), "".join("<holder>%s</holder>" % txt() for _ in src.many(0, 3, 1))),
               "legalnotice": lambda: "<legalnotice><para>%s</para></legalnotice>" % txt(),
               "pubdate": lambda: "<pubdate>%s</pubdate>" % txt(), "abstract": lambda: "<abstract><para>%s</para></abstract>" % txt()}[k]()
        if k == "authorgroup":
            out.append("<authorgroup>%s</authorgroup>" % "".join(one(src.pick(["author", "editor", "collab", "othercredit", "corpauthor"])) for _ in src.many(0, 3, 2)))
        else:
            out.append(one(k))
    t = src.pick(["articleinfo", "bookinfo", "sectioninfo", "chapterinfo"])
    return "[block '''<%s>%s</%s>''']\n\n" % (t, src.pick(["", "\n"]).join(out), t)

def document(src, ver, doctypes=("article", "book", "library"), raw=True, files=None, chapters=0.3, depth=2):
    """-> (main source, files, generator)"""
    g = Html(src, ver, raw)
    t = src.pick(list(doctypes))
    s = "[quickbook 1.%d]\n[%s %s\n  [id t]%s]\n\n" % (ver - 100, t, esc(ver, src.pick(["T", "A & B", "T <x> \"q\"", "\u6f22"])), info(src, ver))
    if raw and ver >= 106 and src.bool(0.15):
        s += raw_info(src)
    if src.bool(0.8):
        s += g.blocks(2, 1, 4, 2)[0] + "\n\n"
    s += g.sections(depth, "t")
    fs = {}
    if ver >= 106 and src.bool(chapters):
        for i in src.many(1, 4, 2):
            s += chapter(src, g, fs, depth, "t", 0)
        if src.bool(0.3):
            s += g.sections(0, "t")
    fs["m.qbk"] = g.finish(s)
    for k in fs:
        fs[k] = g.finish(fs[k])
    return fs, g

CHAPTER_TYPES = ["chapter", "appendix", "preface", "article", "part", "reference"]

def chapter(src, g, fs, depth, parent, level):
    """An included document."""
    n = len(fs)
    name = "c%d.qbk" % n
    fs[name] = ""
    ident = src.pick(["ch%d" % n, "part.ch%d" % n, "x.y.z%d" % n] + (["index"] if "c_index" not in g.once else []))
    if ident == "index":
        g.once.add("c_index")
    s = "[quickbook 1.%d]\n[%s %s\n  [id %s]%s]\n\n" % (g.ver - 100, src.pick(CHAPTER_TYPES), src.pick(["C%d" % n, "Ch & %d" % n, "index"]), ident, info(src, g.ver))
    g.targets.append(ident)
    if g.raw and g.ver >= 106 and src.bool(0.1):
        s += raw_info(src)
    if src.bool(0.8):
        s += g.blocks(2, 1, 3, 1.5)[0] + "\n\n"
    s += g.sections(min(depth, 1), ident)
    if level < 2 and src.bool(0.3):
        for _ in src.many(1, 2, 1.3):
            s += chapter(src, g, fs, depth, ident, level + 1)
    fs[name] = s
    return "[include %s]\n\n" % name

def html_of(res, path, fail):
    if path not in res.files:
        fail("there is no %s" % path)
    try:
        return hm.parse_html(res.files[path])
    except hm.NotHtml as e:
        fail("%s is not proper HTML: %s" % (path, e))

def split_page(html, fail):
    """-> (head, body)"""
    kids = [k for k in html.kids if isinstance(k, E)]
    if [k.tag for k in kids] != ["head", "body"]:
        fail("html holds %r" % [k.tag for k in kids])
    return kids

def page_diff(want, got, url, squash):
    a = hm.canon(E("body", {}, want), url, squash)
    b = hm.canon(got, url, squash)
    return diff(trim(a, squash), trim(b, squash))

def trim(e, squash):
    # white space at the very ends
    if not squash:
        while e.kids and isinstance(e.kids[0], str) and not e.kids[0].strip():
            e.kids.pop(0)
        while e.kids and isinstance(e.kids[-1], str) and not e.kids[-1].strip():
            e.kids.pop()
    return e

def options(src):
    args, graphics, boost, css = [], None, None, None
    if src.bool(0.2):
        boost = src.pick(["boostroot", "../boost", "http://boost.x/y/"])
        args += ["--boost-root-path", boost]
        b = boost.rstrip("/")
        graphics, css = b + "/doc/src/images", b + "/doc/src/boostbook.css"
    if src.bool(0.2):
        graphics = src.pick(["img", "a/img", "../img", "http://h/img", "http://h/img/"])
        args += ["--graphics-path", graphics]
    if src.bool(0.2):
        css = src.pick(["s.css", "a/b.css", "../s.css", "http://h/s.css"])
        args += ["--css-path", css]
    return args, graphics, boost, css

def check_head(head, css, url, fail):
    links = [k for k in head.kids if isinstance(k, E)]
    want = [urljoin(hm.BASE, css)] if css else []
    got = [urljoin(url, k.attrs.get("href", "")) for k in links]
    if any(k.tag != "link" or k.attrs.get("rel") != "stylesheet" for k in links) or got != want:
        fail("the head has %r, expected a style sheet %r" % (links, want))

def f_single(src, env):
    ver = src.pick([107, 107, 107, 106, 106, 105, 103, 101])
    fs, g = document(src, ver)
    compare_single(src, env, fs, g)

def compare_single(src, env, fs, g):
    pretty = src.bool(0.25)
    out = src.pick(["o.html", "o.html", "o.html", "d/p.html"])
    opts, graphics, boost, css = options(src)
    src.key = repr(fs) + repr(opts)
    src.sample = show_files(fs)
    files = dict(fs)
    files["d/keep"] = ""
    r1 = env.run(dict(files), ["m.qbk", "--output-file", "o.xml", "--no-pretty-print", "--no-self-linked-headers"])
    args = ["m.qbk", "--output-format", "onehtml", "--output-file", out] + opts + ([] if pretty else ["--no-pretty-print"])
    r2 = env.run(dict(files), args)
    def fail(msg):
        raise Fail("%s\n%s\n%s\n----- boostbook\n%s\n----- html\n%s\n%s" % (msg, " ".join(args), src.sample, r1.files.get("o.xml", b"").decode("utf-8", "replace"),
                   r2.files.get(out, b"").decode("utf-8", "replace"), r2.describe()))
    if r1.kind != "exit" or r1.code != 0:
        if r1.kind == "exit" and r1.code == 1:
            if r2.kind != "exit" or r2.code != 1:
                fail("errors in BoostBook output but not in HTML")
            raise Discard("the document has errors")
        fail("the BoostBook run failed: %s" % r1.describe())
    if r2.kind != "exit" or r2.code != 0:
        fail("the HTML run failed")
    root = tree(src.sample, r1)
    site = hm.Site(hm.chunk_single(root, out.rsplit("/", 1)[-1]), outdir="d/" if "/" in out else "", graphics=graphics, boost=boost)
    page = hm.Page(site, site.root)
    want = page.body()
    src.nontrivial = sum(1 for e in walk(E("x", {}, want)) if isinstance(e, E)) >= 12
    html = html_of(r2, out, fail)
    head, body = split_page(html, fail)
    url = site.base + page.path
    check_head(head, css, url, fail)
    d = page_diff(want, body, url, pretty)
    if d:
        fail(d)
    check_targets(body, root, page, url, fail)
    for e in walk(root):
        if isinstance(e, E):
            src.label(e.tag)

def check_targets(body, root, page, url, fail):
    """Every link into the page has its target there, and only once."""
    ids = {}
    for e in walk(body):
        if isinstance(e, E) and "id" in e.attrs:
            ids[e.attrs["id"]] = ids.get(e.attrs["id"], 0) + 1
    # known: callout marks have no anchor; sections have theirs twice
    marks = set(e.attrs["id"] for e in elements(root) if e.tag == "co" and "id" in e.attrs)
    lost = lost_ids(root)
    sections = set(e.attrs["id"] for e in elements(root) if e.tag == "section" and "id" in e.attrs)
    for i, n in ids.items():
        if n > 1 and not (n == 2 and i in sections):
            fail("the id %r is on %d elements" % (i, n))
    for e in walk(body):
        if isinstance(e, E) and "href" in e.attrs:
            u = hm.resolve(url.rsplit("/", 1)[0] + "/", url.rsplit("/", 1)[1], e.attrs["href"])
            if u.startswith(url + "#"):
                f = u[len(url) + 1:]
                if f in marks or f in lost or "frag" in f or f == "f":
                    continue
                if f not in ids:
                    fail("a link to %r, which isn't there" % f)

def lost_ids(root):
    """Ids of elements whose tags HTML doesn't keep."""
    keep = set(hm.Page.MAP) | set("warning caution important note tip programlisting replaceable sidebar sbr bridgehead ulink link phrase para emphasis variablelist table informaltable callout footnote row entry term listitem inlinemediaobject".split())
    return set(e.attrs["id"] for e in elements(root) if "id" in e.attrs and e.tag not in keep)

# -- known findings ----------------------------------------------------------
def page_of(env, doc):
    r = env.run({"m.qbk": doc}, ["m.qbk", "--output-format", "onehtml", "--output-file", "o.html", "--no-pretty-print"])
    return hm.parse_html(r.files["o.html"])

def ids_of(html):
    return [e.attrs["id"] for e in walk(html) if isinstance(e, E) and "id" in e.attrs]

def known_section_twice(env):
    return ids_of(page_of(env, "[article T\n[quickbook 1.7]\n[id t]]\n\n[section:a A]\n\nx\n\n[endsect]\n")).count("t.a") == 2

def known_callout_mark(env):
    html = page_of(env, "[article T\n[quickbook 1.7]\n[id t]]\n\n``\nint a; /*< note >*/\n``\n")
    ids = ids_of(html)
    return any(isinstance(e, E) and e.attrs.get("href", "").startswith("#") and e.attrs["href"][1:] not in ids for e in walk(html))

def known_list_title(env):
    from ..xmltree import text_of
    return "Heading of list" not in text_of(page_of(env, "[article T\n[quickbook 1.7]\n[id t]]\n\n[variablelist Heading of list\n[[a][b]]\n]\n"))

def known_alt(env):
    html = page_of(env, "[article T\n[quickbook 1.7]\n[id t]]\n\n[$a.png [alt Described]]\n")
    return not any(isinstance(e, E) and e.tag == "img" and e.attrs.get("alt") == "Described" for e in walk(html))

PROPERTY = {
    "id": "C19",
    "rule": "the page has at least twelve elements",
    "families": [
        Family("single", f_single, 3000, rule="generated documents with every kind of block, raw BoostBook, links, images, footnotes, callouts, sections and included documents: the page against a model of it made from the BoostBook output"),
    ],
    "known": {"section-id-twice": known_section_twice, "callout-mark-anchor": known_callout_mark, "list-title-lost": known_list_title, "image-alt-lost": known_alt},
}
