"""C20: chunked HTML splits a document without losing content or breaking links."""
import re
from urllib.parse import urljoin, unquote
from ..engine import Fail, Discard, Family
from ..docrun import tree, show_files
from ..docgen import VERSIONS
from ..xmltree import E, walk, elements, text_of
from .. import htmlmodel as hm
from .c19 import document, options, html_of, split_page, page_diff, check_head, lost_ids, esc

def run_both(src, env, files, opts, pretty):
    r1 = env.run(dict(files), ["m.qbk", "--output-file", "o.xml", "--no-pretty-print", "--no-self-linked-headers"])
    out = src.pick(["o", "o", "o/", "o/p", "."])
    args = ["m.qbk", "--output-format", "html", "--output-dir", out] + opts + ([] if pretty else ["--no-pretty-print"])
    r2 = env.run(dict(files, **({"o/keep": ""} if out in ("o/", "o/p") else {})), args)
    out = out.rstrip("/") + "/"
    def fail(msg):
        raise Fail("%s\n%s\n%s\n----- boostbook\n%s\n----- html\n%s\n%s" % (msg, " ".join(args), src.sample, r1.files.get("o.xml", b"").decode("utf-8", "replace"),
                   "\n".join("-- %s\n%s" % (k, v.decode("utf-8", "replace")) for k, v in sorted(r2.files.items())), r2.describe()))
    if r1.kind != "exit" or r1.code != 0:
        if r1.kind == "exit" and r1.code == 1:
            if r2.kind != "exit" or r2.code != 1:
                fail("errors in BoostBook output but not in HTML")
            raise Discard("the document has errors")
        fail("the BoostBook run failed: %s" % r1.describe())
    if r2.kind != "exit" or r2.code != 0:
        fail("the HTML run failed")
    root = tree(src.sample, r1)
    if out == "./":
        out = ""
    written = set(r2.files)
    for k in written:
        if not k.startswith(out):
            fail("%s was written, outside the output directory" % k)
    return root, r2, out, fail

def check_links(pages, home, fail, skip=()):
    """`pages`: url -> body. Every link into the output leads to something."""
    ids = {u: set(e.attrs["id"] for e in walk(b) if isinstance(e, E) and "id" in e.attrs) for u, b in pages.items()}
    n = 0
    for u, b in pages.items():
        for e in walk(b):
            if isinstance(e, E) and e.tag == "a" and "href" in e.attrs:
                t = urljoin(u, e.attrs["href"]) if e.attrs["href"] else u
                t, _, frag = t.partition("#")
                if not t.startswith(home) or unquote(t) != t:
                    continue
                if t not in pages:
                    if re.search("(^|/)(x|img|d|e|a|b)\\.?\\w*$", t):
                        continue
                    fail("the link %r in %s leads to no page" % (e.attrs["href"], u))
                n += 1
                if frag and frag not in ids[t] and unquote(frag) not in ids[t] and frag not in skip:
                    fail("the link %r in %s leads to no element of %s" % (e.attrs["href"], u, t))
    return n

def f_site(src, env):
    ver = src.pick([107, 107, 107, 106, 106, 105, 103, 101])
    fs, g = document(src, ver, chapters=0.85)
    pretty = src.bool(0.25)
    opts, graphics, boost, css = options(src)
    src.key = repr(fs) + repr(opts)
    src.sample = show_files(fs)
    root, r2, out, fail = run_both(src, env, fs, opts, pretty)
    site = hm.Site(hm.chunk_pages(root), outdir=out, graphics=graphics, boost=boost)
    want = site.pages()
    src.nontrivial = len(want) >= 3
    src.label("%d pages" % len(want))
    if set(r2.files) != set(out + p.path for p in want):
        fail("the pages are %r, expected %r" % (sorted(r2.files), sorted(out + p.path for p in want)))
    bodies = {}
    for c in want:
        page = hm.Page(site, c)
        body = page.nav() + page.body()
        html = html_of(r2, out + c.path, fail)
        head, got = split_page(html, fail)
        url = site.base + c.path
        bodies[url] = got
        check_head(head, css, url, fail)
        d = page_diff(body, got, url, pretty)
        if d:
            fail("%s: %s" % (c.path, d))
    # known: callout marks have no anchor
    skip = set(e.attrs["id"] for e in elements(root) if e.tag == "co" and "id" in e.attrs) | lost_ids(root) | set(["f", "frag"])
    check_links(bodies, site.base, fail, skip)

# -- trees of sections and documents with awkward ids ------------------------
IDS = ["a", "b", "a.b", "b.a", "a.b.c", "index", "index.html", "a.html", "..", ".a", "a.", "a..b", "...", "-", "_", "0", "page-1", "a-1", "a_b", "A", "toc", "con", "x.index", "a.index"]
OLD_IDS = IDS + ["a/b", "/a", "../a", "../../t", "a:b", "http://a", "a?b", "a#b", "#", "?", "a%41", "%2e%2e", "a b", "a&b", "a<b", "a'b", "\u00e9", "a\\b", "a//b", "./a", "a+b", "a;b", "~", "*"]

class Tree:
    def __init__(self, src, ver):
        self.src, self.ver = src, ver
        self.words = []
        self.ids = []
        self.files = {}
        self.links = 0
    def word(self):
        self.words.append("word%dx" % len(self.words))
        return self.words[-1]
    def ident(self):
        pool = IDS if self.ver >= 107 else OLD_IDS
        i = self.src.pick(pool)
        if self.src.bool(0.15) and len(i) < 8:
            i += self.src.pick(["", ".", "-"]) + self.src.pick(pool)
        self.ids.append(i)
        return i
    def para(self):
        s = self.word()
        for _ in self.src.many(0, 3, 0.8):
            s += " [link @@%d@@ %s]" % (self.src.draw(1000), self.word())
            self.links += 1
        return s + "\n\n"
    def sections(self, depth):
        s = ""
        for _ in self.src.many(0, 3, 1):
            i = re.sub("[^\\w]", "_", self.ident(), flags=re.ASCII) if self.ver < 107 else self.ident()
            s += "[section%s %s]\n\n%s" % (":" + i if self.src.bool(0.7) else "", self.word(), self.para())
            if depth:
                s += self.sections(depth - 1)
            s += "[endsect]\n\n"
        return s
    def docs(self, depth, main=False):
        s = "" if main else "[quickbook 1.%d]\n" % (self.ver - 100)
        i = self.ident()
        s += "[%s %s\n[id %s]]\n\n%s" % (self.src.pick(["article", "chapter", "book", "part", "library"]), self.word(), i.replace("\\", "\\\\").replace("[", "").replace("#", "\\#"), self.para())
        s += self.sections(1)
        if depth:
            for _ in self.src.many(1 if main else 0, 4, 1.6):
                name = "f%d.qbk" % len(self.files)
                self.files[name] = ""
                self.files[name] = self.docs(depth - 1)
                s += "[include %s]\n\n" % name
        if self.src.bool(0.2):
            s += self.sections(0)
        return s

def f_ids(src, env):
    ver = src.pick([107, 107, 106])
    t = Tree(src, ver)
    main = "[quickbook 1.%d]\n" % (ver - 100) + t.docs(2, True)
    t.files["m.qbk"] = main
    # links to the ids as they come out
    fs0 = {k: re.sub("\\[link @@\\d+@@ (\\w+)\\]", "\\1", v) for k, v in t.files.items()}
    src.sample = show_files(fs0)
    r0 = env.run(dict(fs0), ["m.qbk", "--output-file", "o.xml"])
    if r0.kind != "exit":
        raise Fail("%s\n%s" % (src.sample, r0.describe()))
    if r0.code != 0:
        raise Discard("the document has errors")
    root0 = tree(src.sample, r0)
    targets = [e.attrs["id"] for e in elements(root0) if "id" in e.attrs]
    ok = [i for i in targets if re.match("^[\\w.:/#?%&<'+;~*-]+$", i)] or ["nowhere"]
    files = {k: re.sub("@@(\\d+)@@", lambda m: esc_id(ok[int(m.group(1)) % len(ok)]), v) for k, v in t.files.items()}
    src.key = repr(files)
    src.sample = show_files(files)
    root, r2, out, fail = run_both(src, env, files, [], src.bool(0.3))
    base = hm.BASE + out
    pages, order = {}, {}
    for k in r2.files:
        if not k.endswith(".html"):
            fail("%s was written" % k)
        head, body = split_page(html_of(r2, k, fail), fail)
        pages[base + k[len(out):]] = body
    chunks = [c for c in elements(root) if c.tag in hm.CHUNKS]
    src.nontrivial = len(pages) >= 3
    src.label("%d pages" % min(len(pages), 9))
    # content: every word of a paragraph is once in the pages, outside of titles
    texts = {u: re.findall("word\\d+x", text_of(b)) for u, b in pages.items()}
    count = {}
    for u, ws in texts.items():
        for w in ws:
            count[w] = count.get(w, 0) + 1
    inpara = set(re.findall("word\\d+x", " ".join(text_of(p) for p in elements(root) if p.tag == "para")))
    for w in t.words:
        if w in inpara and count.get(w, 0) != 1:
            fail("%s appears %d times" % (w, count.get(w, 0)))
        if w not in count:
            fail("%s is missing" % w)
    n = check_links(pages, base, fail)
    n > 3 and src.label("links")
    # a description leads to the page or element that was asked for
    where = {}
    for c in chunks:
        if "id" in c.attrs:
            own = [k for k in c.kids if isinstance(k, E) and k.tag == "para"]
            if own:
                m = re.findall("word\\d+x", text_of(own[0]))
                if m:
                    where[c.attrs["id"]] = m[0]
    wanted = {}
    for e in elements(root):
        if e.tag == "link" and e.attrs["linkend"] != "nowhere":
            wanted[text_of(e).strip()] = e.attrs["linkend"]
    seen = 0
    for u, b in pages.items():
        for e in walk(b):
            if isinstance(e, E) and e.tag == "a" and "href" in e.attrs and text_of(e).strip() in wanted:
                target = wanted[text_of(e).strip()]
                seen += 1
                if target not in where:
                    continue
                h = urljoin(u, e.attrs["href"]) if e.attrs["href"] else u
                page, _, frag = h.partition("#")
                page = match(page, pages)
                if page is None:
                    fail("the link %r in %s to %r leads nowhere" % (e.attrs["href"], u, target))
                if where[target] not in texts[page]:
                    fail("the link %r in %s to %r leads to a page without it" % (e.attrs["href"], u, target))
                if frag:
                    els = [x for x in walk(pages[page]) if isinstance(x, E) and x.attrs.get("id") == frag]
                    if len(els) < 1 or not any(where[target] in text_of(x) for x in els):
                        fail("the link %r in %s to %r leads to an element without it" % (e.attrs["href"], u, target))
                elif [w for w in texts[page] if w in inpara][:1] != [where[target]]:
                    fail("the link %r in %s to %r leads to a page that doesn't start with it" % (e.attrs["href"], u, target))
    if seen != len(wanted):
        fail("%d of %d links are there" % (seen, len(wanted)))
    # navigation: from the home page by 'next' through all the pages, and back
    follow(pages, base, fail)

def esc_id(i):
    return i.replace("\\", "\\\\")

def match(page, pages):
    return page if page in pages else unquote(page) if unquote(page) in pages else None

def key_links(b):
    out = {}
    for e in walk(b):
        if isinstance(e, E) and e.tag == "a" and "accesskey" in e.attrs:
            out[e.attrs["accesskey"]] = e.attrs["href"]
    return out

def follow(pages, base, fail):
    u, prev, seen = base + "index.html", None, []
    if u not in pages:
        fail("there is no index.html")
    while True:
        seen.append(u)
        k = key_links(pages[u])
        p = match(urljoin(u, k["p"]), pages) if "p" in k else None
        if p != prev:
            fail("the previous page of %s is %s, expected %s" % (u, p, prev))
        if len(seen) > 1 and match(urljoin(u, k.get("h", "")), pages) != base + "index.html":
            fail("the home link of %s is %r" % (u, k.get("h")))
        if "n" not in k:
            break
        n = match(urljoin(u, k["n"]), pages)
        if n is None or n in seen:
            fail("the next page of %s is %r" % (u, k["n"]))
        u, prev = n, u
    if len(seen) != len(pages):
        fail("following the next pages leads through %d of %d pages" % (len(seen), len(pages)))

PROPERTY = {
    "id": "C20",
    "rule": "the output has at least three pages",
    "families": [
        Family("site", f_site, 1800, rule="generated books with nested included documents and sections: each page against a model of it made from the BoostBook output, the set of pages, navigation, and all the links"),
        Family("ids", f_ids, 1500, rule="trees of documents and sections with awkward and clashing ids: words, links, navigation followed through the pages"),
    ],
}
