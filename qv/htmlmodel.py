"""What the HTML made from a BoostBook tree should be: an independent model
used as the oracle for the HTML back end, and a strict reader of HTML."""
import re
from html.parser import HTMLParser
from urllib.parse import urljoin, urlsplit
from .xmltree import E, merge, walk, WS, show, text_of

BASE = "http://b/1/2/3/4/5/6/7/8/cwd/"
VOID = set("br hr img link meta input".split())
CHUNKS = "book article library chapter part appendix preface qandadiv qandaset reference set section".split()
INFOS = [c + "info" for c in CHUNKS]

class NotHtml(Exception):
    pass

class Reader(HTMLParser):
    def __init__(self):
        HTMLParser.__init__(self, convert_charrefs=True)
        self.root = E("#doc")
        self.stack = [self.root]
        self.doctype = None
    def handle_decl(self, decl):
        self.doctype = decl
    def handle_starttag(self, tag, attrs):
        names = [k for k, v in attrs]
        if len(set(names)) != len(names):
            raise NotHtml("an attribute is repeated in <%s %r>" % (tag, attrs))
        e = E(tag, {k: v if v is not None else "" for k, v in attrs})
        self.stack[-1].kids.append(e)
        if tag not in VOID:
            self.stack.append(e)
    def handle_startendtag(self, tag, attrs):
        self.handle_starttag(tag, attrs)
        if tag not in VOID:
            self.stack.pop()
    def handle_endtag(self, tag):
        if tag in VOID:
            raise NotHtml("an end tag of the void element <%s>" % tag)
        if self.stack[-1].tag != tag:
            raise NotHtml("</%s> closes <%s>" % (tag, self.stack[-1].tag))
        self.stack.pop()
    def handle_data(self, s):
        self.stack[-1].kids.append(s)
    def handle_comment(self, s):
        raise NotHtml("a comment: %r" % s)
    def handle_pi(self, s):
        raise NotHtml("a processing instruction: %r" % s)
    def unknown_decl(self, s):
        raise NotHtml("a declaration: %r" % s)

def parse_html(data):
    """-> the <html> element"""
    p = Reader()
    p.CDATA_CONTENT_ELEMENTS = ()
    try:
        p.feed(data.decode("utf-8"))
    except UnicodeDecodeError as e:
        raise NotHtml("not UTF-8: %s" % e)
    p.close()
    if len(p.stack) != 1:
        raise NotHtml("<%s> is not closed" % p.stack[-1].tag)
    els = [k for k in p.root.kids if not isinstance(k, str) or k.strip()]
    if len(els) != 1 or isinstance(els[0], str) or els[0].tag != "html":
        raise NotHtml("not one html element: %r" % els)
    if (p.doctype or "").lower() != "doctype html":
        raise NotHtml("doctype %r" % p.doctype)
    return els[0]

class Chunk:
    def __init__(self, node, parent):
        self.node, self.parent = node, parent
        self.title = self.info = None
        self.rest = None            # the element without title, info and chunks
        self.children = []
        self.id = node.attrs.get("id")
        self.inline = False
        self.path = None

def chunk_of(node, parent=None):
    c = Chunk(node, parent)
    kids = []
    for k in node.kids:
        if isinstance(k, E) and k.tag == "title":
            c.title = k
        elif isinstance(k, E) and k.tag in INFOS:
            c.info = k
        elif isinstance(k, E) and k.tag in CHUNKS:
            c.children.append(chunk_of(k, c))
        else:
            kids.append(k)
    c.rest = E(node.tag, node.attrs, merge(kids))
    return c

def walk_chunks(c):
    yield c
    for k in c.children:
        yield from walk_chunks(k)

def inline(c, path):
    c.inline, c.path = True, path
    for k in c.children:
        inline(k, path)

def chunk_single(root, home):
    c = chunk_of(root)
    c.path = home
    for k in c.children:
        inline(k, home)
    return c

def chunk_pages(root):
    """The leading sections of a page are part of it, everything else has a
    page of its own."""
    c = chunk_of(root)
    c.path = "index.html"
    used = set([c.path])
    def paths(c):
        for k in c.children:
            p = base = "/".join(x for x in re.sub("[^\\w./\\x80-\U0010ffff]", "-", k.id).replace(".", "/").split("/") if x) or "page"
            n = 0
            while p + ".html" in used:
                n += 1
                p = "%s-%d" % (base, n)
            k.path = p + ".html"
            used.add(k.path)
            paths(k)
    paths(c)
    def go(c):
        lead = True
        for k in c.children:
            lead = lead and k.node.tag == "section"
            if lead:
                inline(k, c.path)
            else:
                go(k)
    go(c)
    return c

class Site:
    def __init__(self, root, outdir="", graphics=None, boost=None):
        """`outdir`: the output directory relative to the working directory,
        with a final slash; graphics, boost: options."""
        self.root, self.graphics, self.boost = root, graphics, boost
        self.base = BASE + outdir
        self.footnotes = 0
        self.ids = {}
        for c in walk_chunks(root):
            self.ids.setdefault(c.id, c.path + ("#" + c.id if c.inline else ""))
            for part in (c.title, c.info, c.rest):
                for e in walk(part) if part is not None else ():
                    if isinstance(e, E) and "id" in e.attrs:
                        self.ids.setdefault(e.attrs["id"], c.path + "#" + e.attrs["id"])

    def pages(self):
        out = []
        def go(c):
            out.append(c)
            for k in c.children:
                if not k.inline:
                    go(k)
        go(self.root)
        return out

def resolve(base, page, href):
    """Where a link leads, as a URL; '#' alone is the page itself."""
    u = urljoin(base + page, href) if href else base + page
    return u[:-1] if u.endswith("#") else u

class Page:
    def __init__(self, site, chunk):
        self.site, self.chunk, self.path = site, chunk, chunk.path
        self.toc = False
        self.notes = []
        self.note_ids = {}
        self.callouts = {}
        # the ids that are taken on this page
        self.ids = set()
        def take(c):
            for part in (c.title, c.info, c.rest):
                for e in walk(part) if part is not None else ():
                    if isinstance(e, E) and "id" in e.attrs:
                        self.ids.add(e.attrs["id"])
            for k in c.children:
                if k.inline:
                    take(k)
        take(chunk)

    def url(self, link):
        """The URL of a path relative to the site's root."""
        u = urljoin(self.site.base, link)
        return u[:-1] if u.endswith("#") else u

    def body(self):
        out = self.chunk_body(self.chunk)
        for k in self.chunk.children:
            if k.inline:
                out += self.inline_chunk(k)
        if self.notes:
            div = E("div", {"class": "footnotes"}, [E("br"), E("hr")])
            i = 0
            while i < len(self.notes):
                n, fid, back = self.notes[i]
                div.kids.append(E("div", {"id": fid, "class": "footnote"}, self.note_body(n, back)))
                i += 1
            out.append(div)
        return merge(out)

    def nav(self):
        """Pages are in the order of the document; up is the page of the
        enclosing document."""
        pages = self.site.pages()
        i = [p is self.chunk for p in pages].index(True)
        links = []
        if i > 0:
            links.append(("p", "prev", pages[i - 1].path))
        if self.chunk.parent:
            links.append(("u", "up", self.chunk.parent.path))
            links.append(("h", "home", "index.html"))
        if i + 1 < len(pages):
            links.append(("n", "next", pages[i + 1].path))
        kids = []
        for key, name, path in links:
            kids += ([" "] if kids else []) + [E("a", {"href": self.url(path), "accesskey": key}, [self.graphic("/%s.png" % name, name)])]
        return [E("div", {"class": "spirit-nav"}, kids)] if kids else []

    def note_body(self, n, back):
        kids = merge(n.kids)
        i = 0
        while i < len(kids) and isinstance(kids[i], str) and not kids[i].strip(" \t\n"):
            i += 1
        if i < len(kids) and isinstance(kids[i], E):
            first = kids[i]
            kids = kids[:i] + [E(first.tag, first.attrs, [("html", back)] + first.kids)] + kids[i + 1:]
        else:
            kids = kids[:i] + [("html", back)] + kids[i:]
        return self.gen_all(kids)

    def chunk_body(self, c):
        self.number(c)
        out = []
        if c.title is not None:
            out += self.gen(c.title)
        if c.info is not None:
            out += self.docinfo(c.info)
        if c.children and c.node.tag != "section":
            out.append(E("div", {"class": "toc"}, [E("p", {}, [E("b", {}, ["Table of contents"])])] + self.contents(c, c, 1)))
        return out + self.gen(c.rest)

    def inline_chunk(self, c):
        out = self.chunk_body(c)
        for k in c.children:
            out += self.inline_chunk(k)
        return [E("div", {"id": c.id}, merge(out))]

    def contents(self, page, c, depth):
        if c is not page and depth == 0 and all(k.node.tag == "section" for k in c.children):
            return []
        ul = E("ul")
        for k in c.children:
            old, self.toc = self.toc, True
            if k.title is not None:
                text = self.gen_all(k.title.kids)
            else:
                text = [E("i", {}, ["Untitled"])]
            self.toc = old
            li = E("li", {}, [E("a", {"href": self.url(self.site.ids[k.id])}, merge(text))])
            if k.children:
                li.kids += self.contents(page, k, depth - 1 if k.node.tag == "section" and depth else depth)
            ul.kids.append(li)
        return [ul]

    def number(self, c):
        for part in (c.title, c.info, c.rest):
            for e in walk(part) if part is not None else ():
                if isinstance(e, E) and e.tag == "calloutlist":
                    # a list inside the text of a callout has its own numbers
                    n = 0
                    todo = list(reversed(e.kids))
                    while todo:
                        x = todo.pop()
                        if not isinstance(x, E) or x.tag == "calloutlist":
                            continue
                        if x.tag == "callout" and "id" in x.attrs:
                            n += 1
                            self.callouts.setdefault(x.attrs["id"], {})["number"] = n
                        todo += reversed(x.kids)
                elif isinstance(e, E) and e.tag == "co" and "linkends" in e.attrs:
                    self.callouts.setdefault(e.attrs["linkends"], {})["from"] = e.attrs.get("id")

    def graphic(self, path, text):
        if self.site.graphics:
            g = self.site.graphics
            return E("img", {"src": urljoin(BASE, g.rstrip("/") + path), "alt": text})
        return text

    # -- elements ----------------------------------------------------------
    def gen_all(self, kids):
        out = []
        for k in kids:
            out += self.gen(k)
        return merge(out)

    def tag(self, name, n, attrs=None, kids=None):
        a = {}
        if "id" in n.attrs and not self.toc:
            a["id"] = n.attrs["id"]
        a.update(attrs or {})
        return E(name, a, self.gen_all(n.kids) if kids is None else kids)

    MAP = dict(simpara="div", orderedlist="ol", itemizedlist="ul", listitem="li", blockquote="blockquote", quote="q", code="code", classname="code",
               literal="tt", subscript="sub", superscript="sup", section="div", anchor="span", title="h3", calloutlist="div")

    def gen(self, n):
        if isinstance(n, str):
            return [n]
        if isinstance(n, tuple):
            return list(n[1])
        t = n.tag
        role = n.attrs.get("role", "")
        if t in self.MAP:
            return [self.tag(self.MAP[t], n)]
        if t in ("warning", "caution", "important", "note", "tip"):
            return [self.tag("div", n, {"class": t})]
        if t == "programlisting":
            return [self.tag("pre", n, {"class": t})]
        if t == "replaceable":
            return [self.tag("em", n, {"class": t})]
        if t == "sidebar":
            return [self.tag("div", n, {"class": "blurb" if role == "blurb" else "sidebar"})]
        if t == "sbr":
            k = self.gen_all(n.kids)
            return [self.tag("br", n, kids=[])] + k
        if t == "bridgehead":
            r = n.attrs.get("renderas", "")
            h = "h3"
            if len(r) == 5 and r.startswith("sect") and r[4] in "123456":
                h = "h" + r[4]
            return [self.tag(h, n)]
        if t == "ulink":
            return [self.tag("a", n, {"href": self.external(n.attrs["url"])} if "url" in n.attrs else {})]
        if t == "link":
            to = self.site.ids.get(n.attrs.get("linkend"))
            return [self.tag("a", n, {"href": self.url(to)} if to is not None else {})]
        if t in ("phrase", "para"):
            return [self.tag("span" if t == "phrase" else "p", n, {"class": role} if role else {})]
        if t == "emphasis":
            k = self.gen_all(n.kids)
            if not role:
                return [self.tag("span", n, {"class": "emphasis"}, [E("em", {}, k)])]
            if role in ("bold", "strong"):
                return [self.tag("span", n, {"class": role}, [E("strong", {}, k)])]
            return [self.tag("span", n, {"class": role}, k)]
        if t == "inlinemediaobject":
            return self.image(n)
        if t == "variablelist":
            items = []
            for i in n.kids:
                if isinstance(i, E) and i.tag == "varlistentry":
                    term = [k for k in i.kids if isinstance(k, E) and k.tag == "term"]
                    item = [k for k in i.kids if isinstance(k, E) and k.tag == "listitem"]
                    if term and item:
                        items += [self.tag("dt", term[-1]), self.tag("dd", item[-1])]
            return [self.tag("dl", n, kids=items)] if items else []
        if t in ("table", "informaltable"):
            return self.table(n)
        if t == "callout":
            d = self.callouts.get(n.attrs.get("id"))
            k = []
            if d:
                g = self.graphic("/callouts/%d.png" % d.get("number", 0), "(%d)" % d.get("number", 0))
                back = d.get("from")
                k = [E("a", {"href": self.url(self.site.ids[back])}, [g])] if back in self.site.ids else [g]
            return [self.tag("div", n, kids=merge(k + [" "] + self.gen_all(n.kids)))]
        if t == "co":
            d = self.callouts.get(n.attrs.get("linkends"))
            g = self.graphic("/callouts/%d.png" % d.get("number", 0), "(%d)" % d.get("number", 0)) if d else "(0)"
            to = self.site.ids.get(n.attrs.get("linkends"))
            return [E("a", {"href": self.url(to)}, [g])] if to is not None else [g]
        if t == "footnote":
            if self.toc:
                return []
            self.site.footnotes += 1
            num = "[%d]" % self.site.footnotes
            i = 1
            while "footnote-%d" % i in self.ids:
                i += 1
            fid = "footnote-%d" % i
            self.ids.add(fid)
            me = n.attrs["id"]
            back = [E("a", {"href": self.url(self.path + "#" + me)}, [E("sup", {}, [num])]), " "]
            self.notes.append((n, fid, back))
            return [self.tag("a", n, {"href": self.url(self.path + "#" + fid)}, [E("sup", {"class": "footnote"}, [num])])]
        return self.gen_all(n.kids)

    def external(self, url):
        if url.startswith("boost:"):
            rest = url[6:]
            if rest.startswith("/"):
                rest = rest[1:]
            if not self.site.boost:
                return "http://www.boost.org/doc/libs/release/" + rest
            return urljoin(BASE, self.site.boost.rstrip("/") + "/" + rest)
        if url.startswith("#"):
            return self.url(self.path + url)
        if not url:
            return self.url("")
        return self.url(url)

    def image(self, n):
        ref = alt = None
        for k in n.kids:
            if isinstance(k, E) and k.tag == "imageobject":
                for j in k.kids:
                    if isinstance(j, E) and j.tag == "imagedata" and "fileref" in j.attrs and ref is None:
                        ref = j.attrs["fileref"]
            if isinstance(k, E) and k.tag == "textobject":
                for j in k.kids:
                    if isinstance(j, E) and j.tag == "phrase" and j.attrs.get("role") == "alt":
                        alt = text_of(j)
        if ref is None:
            return []
        return [E("span", {"class": "inlinemediaobject"}, [self.tag("img", n, {"src": self.external(ref), "alt": alt or "[]"}, [])])]

    def table(self, n):
        def part(e, name):
            f = [k for k in e.kids if isinstance(k, E) and k.tag == name]
            return f[-1] if f else None
        group = part(n, "tgroup")
        if group is None:
            return []
        t = E("table")
        title = part(n, "title")
        if title is not None:
            t.kids.append(self.tag("caption", title))
        for sect, cell in (("thead", "th"), ("tbody", "td")):
            s = part(group, sect)
            if s is None:
                continue
            h = E(sect)
            for r in s.kids:
                if isinstance(r, E) and r.tag == "row":
                    h.kids.append(self.tag("tr", r, kids=[self.tag(cell, e, {"class": e.attrs["role"]} if e.attrs.get("role") else {})
                                                          for e in r.kids if isinstance(e, E) and e.tag == "entry"]))
            t.kids.append(h)
        return [self.tag("div", n, {"class": n.tag}, [t])]

    # -- document information ----------------------------------------------
    def docinfo(self, info):
        people, copy, legal = {"author": [], "editor": [], "collab": []}, [], []
        def name(x):
            for k in x.kids:
                if isinstance(k, E) and k.tag == "personname":
                    return name(k)
            out = []
            for part in ("honorific", "firstname", "surname"):
                f = [k for k in x.kids if isinstance(k, E) and k.tag == part]
                if f:
                    if out:
                        out.append(" ")
                    out += self.gen_all(f[0].kids)
            return out
        def go(x):
            for k in x.kids:
                if not isinstance(k, E):
                    continue
                if k.tag == "copyright":
                    c = []
                    for y in k.kids:
                        if isinstance(y, E) and y.tag == "year":
                            c += ([", "] if c else []) + self.gen_all(y.kids)
                    first = True
                    for y in k.kids:
                        if isinstance(y, E) and y.tag == "holder":
                            c += ([" "] if c else []) if first else [", "]
                            c += self.gen_all(y.kids)
                            first = False
                    copy.append(c)
                elif k.tag == "legalnotice":
                    legal.append(self.gen_all(k.kids))
                elif k.tag == "pubdate":
                    pass
                elif k.tag == "author":
                    people["author"].append(name(k))
                elif k.tag == "editor":
                    people["editor"].append(name(k))
                elif k.tag == "collab":
                    f = [j for j in k.kids if isinstance(j, E) and j.tag == "collabname"]
                    if f:
                        people["collab"].append(self.gen_all(f[0].kids))
                elif k.tag == "corpauthor":
                    people["author"].append(self.gen_all(k.kids))
                elif k.tag in ("corpcredit", "othercredit"):
                    c = self.gen_all(k.kids) if k.tag == "corpcredit" else name(k)
                    if k.attrs.get("class"):
                        c = [k.attrs["class"] + ": "] + c
                    people["author"].append(c)
                else:
                    go(k)
        go(info)
        out = []
        if any(people.values()):
            div = E("div", {"class": "authorgroup"}, ["\n"])
            for kind in ("author", "editor", "collab"):
                for p in people[kind]:
                    div.kids += [E("h3", {"class": kind}, merge(p)), "\n"]
            out += [div, "\n"]
        out += [E("p", {"class": "copyright"}, merge(c)) for c in copy]
        out += [E("div", {"class": "legalnotice"}, c) for c in legal]
        return out

# -- comparing --------------------------------------------------------------
def canon(n, page_url, squash=False, pre=False, keep=False):
    """Links resolved, runs of white space made one space; `squash` removes
    white space altogether (the output was pretty printed)."""
    attrs = dict(n.attrs)
    for a in ("href", "src"):
        if a in attrs:
            u = urljoin(page_url, attrs[a]) if attrs[a] else page_url
            attrs[a] = u[:-1] if u.endswith("#") else u
    pre = pre or n.tag == "pre"
    kids = []
    for k in merge(n.kids):
        if isinstance(k, str):
            if squash:
                k = WS.sub("", k)
            elif not pre:
                k = WS.sub(" ", k)
            if k:
                kids.append(k)
        else:
            kids.append(canon(k, page_url, squash, pre))
    return E(n.tag, attrs, kids)
