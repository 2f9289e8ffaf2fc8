"""C29: the document information is reproduced in the document's header."""
import re, time, calendar
from ..engine import Fail, Discard, Family
from ..docgen import Gen, VERSIONS
from ..docrun import convert, tree, show_files, PLAIN
from ..xmltree import E, canon, diff, walk, text_of, elements, WS
from .c07 import make_identifier

TYPES = ["article", "library", "book", "chapter", "part", "appendix", "preface", "qandadiv", "qandaset", "reference", "set"]
SINGLE = ["id", "lang", "version", "dirname", "last-revision", "purpose", "license"]
MULTI = ["category", "authors", "copyright", "biblioid"]
WORDS = ["Foo", "bar", "1.0", "x-y", "a_b", "caf\u00e9", "C++", "\u6f22", "it's", "*bold*", "/it/", "`c`", "==", "a,b", "42", "(c)", "#5", "$x$", "%20", "zmx", "zm_y", "zampA"]
SPECIAL = ["<", ">", "&", "\"", "<b>", "&amp;", "a<b", "\"q\"", "&#38;"]
ESCAPES = [("\\]", "]"), ("\\[", "["), ("\\\\", "\\"), ("\\u0041", "A"), ("\\u00e9", "\u00e9"), ("\\U0001f600", "\U0001f600"), ("\\<", "<"), ("\\&", "&"), ("\\\"", "\""),
           ("'''&amp;'''", "&"), ("'''x'''", "x"), ("\\ ", "")]
RAW = [("&amp;", "&"), ("&lt;", "<"), ("&#233;", "\u00e9"), ("&quot;", "\"")]
# macros given on the command line: content and its plain text
MACROS = {"zm": ("plain", "plain"), "zamp": ("a & <b>", "a & <b>"), "zbold": ("*strong* x", "strong x"), "zurl": ("[@http://a/b text]", "text")}

def norm(s):
    return WS.sub(" ", s).strip(" ")

class Doc:
    def __init__(self, src, ver, suffix=""):
        self.suffix = suffix
        self.src, self.ver = src, ver
        self.encoded = ver >= 106
        self.macros = self.encoded
        self.used_macros = set()

    def value(self, lo=1, hi=4, stop="]", first=None):
        """-> (source, text)"""
        src = self.src
        s = t = ""
        for i in src.many(lo, hi, 1.8):
            if i == 0 and first:
                a = b = src.pick(first)
            else:
                k = src.weighted([(10, "word"), (5, "special"), (3, "escape"), (2 if self.macros else 0, "macro")])
                if k == "word":
                    a = b = src.pick(WORDS)
                elif k == "special":
                    a, b = src.pick([(c, c) for c in SPECIAL] if self.encoded else RAW)
                elif k == "escape":
                    a, b = src.pick(ESCAPES) if self.encoded else src.pick(RAW)
                else:
                    m = src.pick(sorted(MACROS))
                    self.used_macros.add(m)
                    a, b = m, MACROS[m][1]
            if any(c in a for c in stop) and not a.startswith(("\\", "'''")):
                a = b = "w"
            if i:
                sep = src.pick([" ", " ", "  ", "", "\n  " if stop != "title" else " "]) if stop != "title" else src.pick([" ", "  "])
                # nothing may join into a macro's name or an escape
                if sep == "" and (s[-1:].isalnum() or s[-1:] in "_\\&'" or a[:1] in "&'" or s[-1:] == "\\"):
                    sep = " "
                s += sep
                t += sep
            s += a
            t += b
        if s[:1] in "/" or not norm(t):
            s, t = "o" + s, "o" + t
        if s[:1] in "'" and not s.startswith("'''"):
            s, t = "o" + s, "o" + t
        return s, t

    def sp(self, *l):
        """White space where the grammar allows any"""
        return self.src.pick([" [/c]", "[/ c [d]] ", "\n", "\n  ", "\t"]) if self.src.bool(0.12) else self.src.pick(l)

    def gap(self, need=False):
        g = self.src.weighted([(6, " "), (3 if not need else 0, ""), (2, "  "), (2, "\n"), (2, " [/ a [b] c]"), (1, "\t"), (1, "\n\n ")])
        return g

    def title(self):
        if self.src.bool(0.1):
            return "", ""
        s, t = self.value(1, 4, stop="title")
        if re.search(r"[\[\]]", re.sub(r"\\.", "", s)) or s[:1] in "'":
            s = t = "Ttl"
        return s, t

    def phrase(self):
        """A phrase for license and purpose: (source, nodes)"""
        src = self.src
        if self.ver < 103:
            s, t = self.value()
            return s, [t]
        # the document information is read before the version is known: only
        # what is the same in all versions
        g = Gen(src, 101, phrase={"code": 0, "comment": 0, "escspace": 0, "unicode": 0, "alone": 0})
        return g.phrase(2, 1, 5, 2, start="hard")

    def single(self, name):
        src = self.src
        if name in ("purpose", "license"):
            return self.phrase()
        if name == "id":
            v = src.pick(["foo", "my.id", "a_b-c", "X9", "legal", "long_identifier_that_goes_on_and_on_and_on_until_the_end"]) + self.suffix
            return v, v
        if name == "lang":
            if src.bool(0.7):
                v = src.pick(["en", "en-US", "de"])
                return v, v
        return self.value()

    def copyright(self):
        """-> (source, [(years, holder)])"""
        src = self.src
        s, groups = "", []
        for i in src.many(1, 3, 1.4):
            if i:
                s += src.pick([", ", ",", " , "])
            years = []
            for j in src.many(1, 4, 1.7):
                if j:
                    s += self.sp(", ", " ", ",") if not s[-1:].isdigit() else src.pick([", ", " ", ",", "\n"]) + self.sp("", "")
                a = src.pick([2001, 1999, 2010, 1000, 9998])
                s += "%04d" % a
                b = a
                if src.bool(0.35):
                    b = a + src.pick([1, 0, 3, 1, 3, 45])
                    b = min(b, 9999)
                    s += self.sp("", " ") + "-" + self.sp("", " ") + "%04d" % b
                years += list(range(a, b + 1))
            h, t = self.value(1, 3, first=["Joe", "Ann Lee", "Doe, Jane", "Foo Inc. 2001", "\u00c9ric"])
            # a year after a comma starts the next holder
            if re.search(r",\s*\d{4}", h):
                h = t = "Joe"
            s += src.pick([" ", "  ", ", "]) + h
            groups.append((years, t))
        return s, groups

    def authors(self):
        src = self.src
        s, out = "", []
        for i in src.many(1, 3, 1.5):
            if i:
                s += self.sp(" ", ", ", "", "\n  ")
            sur, st = self.value(1, 3, stop=",")
            if re.search(r"[\[\]]", re.sub(r"\\.", "", sur)) or "," in sur:
                sur = st = "Doe"
            fst, ft = self.value(1, 3)
            s += "[" + self.sp("", " ") + sur + "," + self.sp(" ", " ", "", "  ") + fst + "]"
            out.append((ft, st))
        return s, out

    def make(self, types=TYPES, version_inside=None):
        """Fills in source and expectation."""
        src = self.src
        self.type = src.pick(types)
        ts, self.title_text = self.title()
        items = []           # (name, value source, expectation)
        inside = version_inside if version_inside is not None else src.bool(0.7)
        for i in src.many(0, 9, 4):
            name = src.pick(SINGLE + MULTI + MULTI + ["escaped", "source-mode", "compatibility-mode"])
            if name == "escaped":
                if self.ver < 107:
                    continue
                w = "e%d" % i
                items.append((name, "'''<keyword>%s</keyword>'''" % w, w))
            elif name == "source-mode":
                items.append((name, src.pick(["c++", "python", "teletype"]), None))
            elif name == "compatibility-mode":
                items.append((name, src.pick(["1.3", "1.5", "1.7"]), None))
            elif name == "authors":
                items.append((name,) + self.authors())
            elif name == "copyright":
                items.append((name,) + self.copyright())
            elif name == "biblioid":
                c = src.pick(["isbn", "uri", "doi", "X1"])
                s, t = self.value(1, 3)
                items.append((name, c + " " + s, (c, t)))
            elif name == "category":
                items.append((name,) + self.value())
            else:
                items.append((name,) + self.single(name))
        if inside:
            items.insert(src.int(0, len(items)), ("quickbook", "1.%d" % (self.ver - 100), None))
        while not ts and items and items[0][0] == "escaped":
            items = items[1:]     # would be the title
        self.items = items
        s = ""
        if not inside:
            s += "[quickbook 1.%d]%s" % (self.ver - 100, src.pick(["\n", " ", "\n\n"]))
            if src.bool(0.2):
                s += "[source-mode python]\n"
        s += "[" + self.sp("", " ") + self.type + (" " + ts if ts else "")
        if not ts:
            s += src.pick(["", " "])
        if not items:
            s += src.pick(["", " ", "\n"])
        for i, (name, v, x) in enumerate(items):
            g = self.gap()
            if name == "escaped":
                # directly after the title it would be part of it
                s += ("\n" if i == 0 else g) + v
                continue
            if i == 0 and self.ver < 106 and "[/" in g:
                # the title is shown as it is written
                g = "\n"
            s += g + "[" + src.pick(["", "", " "]) + name + src.pick([" ", " ", "  ", "\n "]) + v + src.pick(["", "", " ", "\n"] if name != "escaped" else [""]) + "]"
        s += src.pick(["", "", "\n", " "]) + "]\n"
        self.source = s
        return self

    def values(self, name):
        return [x for n, v, x in self.items if n == name]

    # -- the expectation -----------------------------------------------------
    def check_header(self, root, fail, include_id=None):
        if root.tag != self.type:
            fail("the root element is %s, expected %s" % (root.tag, self.type))
        lib = self.type == "library"
        attrs = {k: norm(v) for k, v in root.attrs.items()}
        def one_of(what, got, wanted, text=lambda x: x):
            """One of the given values, or absent when none was given."""
            if not wanted:
                if got is not None:
                    fail("%s is %r but none was given" % (what, got))
            elif got not in [norm(text(w)) for w in wanted]:
                fail("%s is %r, expected one of %r" % (what, got, [norm(text(w)) for w in wanted]))
        ids = self.values("id")
        if include_id:
            ids = [include_id]
        if ids and root.attrs.get("id") not in ids:
            fail("the id is %r, expected %r" % (root.attrs.get("id"), ids))
        if "id" not in attrs:
            fail("no id")
        one_of("lang", attrs.get("lang"), self.values("lang"))
        if lib:
            t = norm(self.title_text)
            if attrs.get("name", "") != t:
                fail("the library's name is %r, expected %r" % (attrs.get("name"), t))
        elif "name" in attrs:
            fail("an unexpected name attribute")
        dn = self.values("dirname")
        if dn or not lib:
            one_of("dirname", attrs.get("dirname"), dn)
        elif self.values("id"):
            one_of("dirname", attrs.get("dirname"), self.values("id"))
        elif include_id:
            one_of("dirname", attrs.get("dirname"), [include_id])
        elif "dirname" not in attrs:
            fail("a library without a directory name")
        if self.values("last-revision"):
            one_of("last-revision", attrs.get("last-revision"), self.values("last-revision"))
        else:
            m = re.match(r"\$Date: (\d{4})/(\d\d)/(\d\d) (\d\d):(\d\d):(\d\d) \$$", attrs.get("last-revision", ""))
            if not m:
                fail("last-revision is %r, expected the date" % attrs.get("last-revision"))
            when = calendar.timegm(tuple(int(x) for x in m.groups()) + (0, 0, 0))
            if abs(when - time.time()) > 3600:
                fail("last-revision %r is not the time of the run" % attrs["last-revision"])
        extra = set(attrs) - set("id lang name dirname last-revision xml:base xmlns:xi".split())
        if extra:
            fail("unexpected attributes %r" % extra)

        # the information element
        want = []
        au = [a for v in self.values("authors") for a in v]
        if au:
            want.append(E("authorgroup", {}, [E("author", {}, [E("firstname", {}, [f]), E("surname", {}, [s])]) for f, s in au]))
        for v in self.values("copyright"):
            for years, holder in v:
                want.append(E("copyright", {}, [E("year", {}, [str(y)]) for y in years] + [E("holder", {}, [holder])]))
        lic, pur = self.values("license"), self.values("purpose")
        if lic:
            want.append(("legalnotice", [E("legalnotice", {}, [E("para", {}, n)]) for n in lic]))
        if pur:
            want.append(("purpose", [E(self.type + "purpose", {}, n) for n in pur]))
        for c in self.values("category"):
            want.append(E(self.type + "category", {"name": "category:" + c}))
        for c, v in self.values("biblioid"):
            want.append(E("biblioid", {"class": c}, [v]))
        for w in self.values("escaped"):
            want.append(E("keyword", {}, [w]))
        kids = [k for k in root.kids if not isinstance(k, str) or k.strip()]
        infos = [k for k in kids if isinstance(k, E) and k.tag == self.type + "info"]
        if len(infos) != (1 if want else 0):
            fail("%d information elements, expected %d" % (len(infos), 1 if want else 0))
        def form(e):
            e = canon(e)
            for x in walk(e):
                if isinstance(x, E):
                    x.attrs = {k: norm(v) for k, v in x.attrs.items()}
                    if x.tag in ("firstname", "surname", "holder", "biblioid", self.type + "purpose", "para"):
                        if x.tag not in ("para", self.type + "purpose"):
                            # macros may have markup
                            x.kids = [text_of(x)]
                        # white space at the ends of a value is not part of it
                        if x.kids and isinstance(x.kids[0], str):
                            x.kids[0] = x.kids[0].lstrip(" ")
                        if x.kids and isinstance(x.kids[-1], str):
                            x.kids[-1] = x.kids[-1].rstrip(" ")
                        x.kids = [k for k in x.kids if k != ""]
            return e
        if want:
            got = [k for k in infos[0].kids if not isinstance(k, str) or k.strip()]
            for i in range(max(len(got), len(want))):
                if i >= len(want):
                    fail("unexpected in the information element: %r" % got[i])
                alts = want[i][1] if isinstance(want[i], tuple) else [want[i]]
                if i >= len(got):
                    fail("missing from the information element: %r" % alts[-1])
                ds = [diff(form(E("#i", {}, [a])), form(E("#i", {}, [got[i]]))) for a in alts]
                if all(ds):
                    fail("the information element: %s" % ds[-1])
        # the title
        titles = [k for k in kids if isinstance(k, E) and k.tag == "title"]
        if self.title_text == "":
            # an empty title may be left out
            wt = [""] + [norm(v) for v in self.values("version")]
            if len(titles) > 1 or titles and norm(text_of(titles[0])) not in wt:
                fail("title %r for an empty one" % titles)
        else:
            vs = self.values("version")
            wt = [norm(self.title_text + " " + v) for v in vs] or [norm(self.title_text)]
            if len(titles) != 1 or norm(text_of(titles[0])) not in wt:
                fail("the title is %r, expected one of %r" % ([norm(text_of(t)) for t in titles], wt))
        rest = [k for k in kids if not (isinstance(k, E) and (k in titles or k in infos))]
        return rest

    def warnings(self):
        dup = set(n for n in SINGLE + ["quickbook", "compatibility-mode"] if len(self.values(n)) > 1)
        inv = set()
        if self.type != "library":
            for n in ("purpose", "category", "dirname"):
                if self.values(n):
                    inv.add(n)
        return dup, inv

def check_warnings(err, docs, fail):
    """Every repeated or inapplicable attribute is named in one warning."""
    dups, invs = [], []
    for line in err.splitlines():
        m = re.search(r"Duplicate attributes?:(.*)", line)
        if m:
            dups.append(set(x.strip() for x in m.group(1).split(",")))
            continue
        m = re.search(r"Invalid attributes? for '(\w+) document info':(.*)", line)
        if m:
            invs.append((m.group(1), set(x.strip() for x in m.group(2).split(","))))
            continue
        if "rror" in line:
            fail("unexpected diagnostic %r" % line)
    wd = sorted(sorted(d.warnings()[0]) for d in docs if d.warnings()[0])
    wi = sorted((d.type, sorted(d.warnings()[1])) for d in docs if d.warnings()[1])
    if sorted(sorted(x) for x in dups) != wd:
        fail("warnings about repeated attributes %r, expected %r" % (dups, wd))
    if sorted((t, sorted(x)) for t, x in invs) != wi:
        fail("warnings about inapplicable attributes %r, expected %r" % (invs, wi))

def args_for(docs):
    a = list(PLAIN)
    for m in sorted(set().union(*[d.used_macros for d in docs])):
        a.append("-D" + m + "=" + MACROS[m][0])
    return a

def f_header(src, env):
    ver = src.pick(VERSIONS)
    d = Doc(src, ver).make()
    doc = d.source + "\nhello\n"
    src.key = doc
    src.sample = doc
    src.nontrivial = len(d.items) >= 3
    for n, v, x in d.items:
        src.label(n)
    args = args_for([d])
    res = convert(env, doc, args)
    def fail(msg):
        raise Fail("%s\n----- document (%s)\n%s\n----- output\n%s\n%s" % (msg, " ".join(args), doc, res.files["o.xml"].decode("utf-8", "replace"), res.describe()))
    root = tree(doc, res)
    m = re.search(rb"<!DOCTYPE\s+(\w+)", res.files["o.xml"])
    if not m or m.group(1).decode() != d.type:
        fail("the document type is not %s" % d.type)
    rest = d.check_header(root, fail)
    if len(rest) != 1 or text_of(rest[0]).strip() != "hello":
        fail("after the header: %r" % rest)
    check_warnings(res.err.decode("utf-8", "replace"), [d], fail)

def f_nested(src, env):
    """Documents included in documents, with information of their own."""
    ver = src.pick([107, 107, 106, 105, 103])
    outer = Doc(src, ver)
    outer.macros = False
    outer.make()
    parts = []
    docs = [outer]
    body = outer.source + "\nbefore\n\n"
    files = {}
    for i in src.many(1, 3, 1.5):
        iv = src.pick([107, 106] if ver >= 106 else [ver])
        inner = Doc(src, iv, "_%d" % i)
        inner.make()
        inc_id = src.pick(["", "inc%d" % i]) if src.bool(0.6) else ""
        body += "[include%s f%d.qbk]\n\nafter%d\n\n" % (":" + inc_id if inc_id else "", i, i)
        files["f%d.qbk" % i] = inner.source + "\ninside%d\n" % i
        parts.append((inner, inc_id, i))
        if ver >= 106:
            docs.append(inner)
    src.key = body + repr(files)
    src.sample = show_files(dict(files, **{"m.qbk": body}))
    src.nontrivial = sum(len(p[0].items) for p in parts) >= 2
    args = args_for(docs)
    for p in parts:
        for m in p[0].used_macros:
            a = "-D" + m + "=" + MACROS[m][0]
            if a not in args:
                args.append(a)
    res = convert(env, body, args, files)
    def fail(msg):
        raise Fail("%s\n(%s)\n%s\n----- output\n%s\n%s" % (msg, " ".join(args), src.sample, res.files["o.xml"].decode("utf-8", "replace"), res.describe()))
    rest = outer.check_header(tree(body, res), fail)
    i = 0
    def take(text):
        nonlocal i
        if i >= len(rest) or not isinstance(rest[i], E) or rest[i].tag != "para" or text_of(rest[i]).strip() != text:
            fail("expected the paragraph %r, got %r" % (text, rest[i:i + 1]))
        i += 1
    take("before")
    for inner, inc_id, n in parts:
        if ver >= 106:
            if i >= len(rest):
                fail("an included document is missing")
            r = inner.check_header(rest[i], fail, inc_id or None)
            if len(r) != 1 or text_of(r[0]).strip() != "inside%d" % n:
                fail("after the header of the included document: %r" % r)
            i += 1
        else:
            take("inside%d" % n)
        take("after%d" % n)
    if i != len(rest):
        fail("unexpected: %r" % rest[i:])
    # before 1.6 what an included file says about itself is not used
    check_warnings(res.err.decode("utf-8", "replace"), docs, fail) if ver >= 106 else None

def f_errors(src, env):
    """One mistake among correct attributes."""
    ver = src.pick([107, 106, 105])
    d = Doc(src, ver)
    d.macros = False
    d.make(version_inside=True)
    kind = src.pick(["unknown", "years", "version", "compat", "nodocinfo", "unclosed"])
    s = d.source
    mark = src.pick([k for k in range(len(s)) if s[k] == "\n"] or [0])
    line = None
    base = "[%s T\n[quickbook 1.%d]\n" % (d.type, ver - 100)
    pre = "".join("[%s %s]\n" % (n, v) for n, v, x in d.items if n not in ("quickbook", "escaped"))
    post = "]\n\nhello\n"
    at = (base + pre).count("\n") + 1
    if kind == "unknown":
        n = src.pick(["foo", "Version", "author", "copy-right", "x_1", "categories", "quickbooks", "langs"])
        doc = base + pre + "[%s some value]\n" % n + post
        want, line = "Unrecognized document attribute: '%s'." % n, at
        if n.startswith(("quickbook", "lang")):
            want, line = "", None
    elif kind == "years":
        a = src.pick([2001, 2010, 9999])
        b = a - src.pick([1, 5, 1000])
        y = "%d-%d" % (a, b)
        doc = base + pre + "[copyright %s%s Joe%s]\n" % (src.pick(["", "1999, "]), src.pick([y, "%d - %d" % (a, b)]), src.pick(["", ", 2001 Ann"])) + post
        want, line = "Invalid year range: %s." % y, at
    elif kind == "version":
        v = src.pick(["1.8", "1.10", "1.99", "2.0", "0.9", "17.0", "0.0"])
        doc = "[%s T\n[quickbook %s]\n" % (d.type, v) + post
        if src.bool(0.3):
            doc = "[quickbook %s]\n[%s T]\n\nhello\n" % (v, d.type)
        want = "Unknown version: %s" % v.replace(".0", ".0")
    elif kind == "compat":
        v = src.pick(["1.8", "0.9", "3.2"])
        doc = base + "[compatibility-mode %s]\n" % v + post
        want = "Unknown version: %s" % v
    elif kind == "nodocinfo":
        doc = src.pick(["hello\n", "[quickbook 1.7]\nhello\n", "", "[section x]\n[endsect]\n", "[articles T]\n", "\\[article T]\n", "[template setup x]\n[setup]\n", "[set_up]\n"])
        want = "No doc_info block."
    else:
        tail = src.pick(["[version 1.0\n", "[authors [a, b]\n", "junk\n", "[copyright Joe]\n", "[biblioid isbn]\n", "[authors Joe]\n", "", "[license *x*\n"])
        doc = base + pre + tail
        if tail.endswith(("junk\n", "Joe]\n", "isbn]\n")):
            doc += post
        want = ""
    src.key = doc
    src.sample = doc
    src.nontrivial = True
    src.label(kind)
    res = convert(env, doc, ok=False)
    err = res.err.decode("utf-8", "replace")
    errs = [l for l in err.splitlines() if "error:" in l]
    def fail(msg):
        raise Fail("%s\n----- document\n%s\n%s" % (msg, doc, res.describe()))
    if not errs:
        fail("no error message")
    if want:
        hit = [l for l in errs if want in l]
        if not hit:
            fail("no error about %r" % want)
        if line is not None and not any(l.startswith("m.qbk:%d:" % line) for l in hit):
            fail("the error is not on line %d" % line)

PROPERTY = {
    "id": "C29",
    "rule": "header: at least three attributes; nested: at least two attributes in included documents; errors: always",
    "families": [
        Family("header", f_header, 10000, rule="document information with at least three attributes, in random order and layout"),
        Family("nested", f_nested, 3600, rule="included documents with at least two attributes in their document information"),
        Family("errors", f_errors, 2000, rule="one mistake among correct attributes"),
    ],
}
