"""C23 Relative paths and URLs."""
import os, posixpath, re, urllib.parse
from ..engine import Family, Fail, Discard
from ..xmltree import parse_xml

PARTS = ["a", "b", "c", "a b", "doc", "html", "x.y", "é", "a%20b", "A+B", "ab"]

def gen_rel(src, lo=0, hi=5, dots=True):
    out = []
    for _ in src.many(lo, hi, 2.5):
        k = src.draw(9)
        out.append(src.pick(PARTS) if k < 7 or not dots else "." if k == 7 else "..")
    return out

def join(src, parts, absolute):
    s = ""
    for i, p in enumerate(parts):
        s += (("//" if src.bool(0.06) else "/") if i else "") + p
    if absolute:
        s = "/" + s
    elif not s:
        s = "."
    if parts and src.bool(0.15):
        s += "/"
    return s

def f_difference(src, env):
    cwd = os.path.realpath(env.driver.scratch)
    ab = src.bool(0.7)
    pa = src.bool(0.7)
    common = gen_rel(src, 0, 3) if ab == pa else []
    base = common + gen_rel(src)
    path = common + gen_rel(src)
    is_file = src.bool(0.5)
    b_, p_ = join(src, base, ab), join(src, path, pa)
    r = env.unit("path_difference", b_, p_, "1" if is_file else "0")
    if not isinstance(r, list):
        raise Fail("path_difference(%r, %r) threw %r" % (b_, p_, r))
    d = r[0].decode()
    nb = posixpath.normpath("/" + posixpath.join(cwd, b_).lstrip("/"))
    np = posixpath.normpath("/" + posixpath.join(cwd, p_).lstrip("/"))
    src.key = repr((b_, p_, is_file))
    src.sample = "from %s to %s%s: %s" % (b_, p_, " (file)" if is_file else "", d)
    src.nontrivial = nb != np and posixpath.commonpath([nb, np]) != "/"
    if d == "" or posixpath.isabs(d):
        raise Fail("path_difference(%r, %r, %s) = %r is not a relative path" % (b_, p_, is_file, d))
    if posixpath.normpath(posixpath.join(nb, d)) != np:
        raise Fail("path_difference(%r, %r, %s) = %r leads to %r, expected %r" % (
            b_, p_, is_file, d, posixpath.normpath(posixpath.join(nb, d)), np))
    # no detours: up to the common directory and down again
    want = posixpath.relpath(np, nb)
    if is_file and np != "/" and (nb == np or nb.startswith(np + "/")):
        up = posixpath.relpath(posixpath.dirname(np), nb)
        want = posixpath.join(up, posixpath.basename(np))
    if d != want:
        raise Fail("path_difference(%r, %r, %s) = %r, expected %r" % (b_, p_, is_file, d, want))

UP = ["a", "b c", "x%y", "%41", "é", "q?r", "h#i", "a:b", "a+b", "a&b=c", "~u", "x\\y", "(z)", "[v]", "'", '"', "<", ".h", "..", "."]

def url_decode(u):
    return urllib.parse.unquote_to_bytes(u)

URL_OK = re.compile(r"[A-Za-z0-9\-_.!~*'()/%:]*$")

def f_url(src, env):
    parts = [src.pick(UP) for _ in src.many(0, 5, 2.5)]
    absolute = src.bool(0.3)
    p = join(src, parts, absolute) if parts or absolute else ""
    raw = p.encode()
    f, = env.unit("file_path_to_url", raw)
    d, = env.unit("dir_path_to_url", raw)
    f, d = f.decode(), d.decode()
    src.key = p
    src.sample = "%r -> %s, %s" % (p, f, d)
    src.nontrivial = any(not c.isalnum() and c not in "/." for c in p)
    def norm(x):
        # what the path designates, without normalising dot-dot
        absol = x.startswith(b"/")
        return (b"/" if absol else b"") + b"/".join(c for c in x.split(b"/") if c not in (b"", b"."))
    for u, what in ((f, "file"), (d, "dir")):
        if not URL_OK.match(u):
            raise Fail("%s_path_to_url(%r) = %r holds characters a URL must escape" % (what, p, u))
        s = u
        if absolute:
            if p.startswith("//"):
                return      # a network name
            if not s.startswith("file:///"):
                raise Fail("%s_path_to_url(%r) = %r is not an absolute file URL" % (what, p, u))
            s = s[len("file://"):]
        elif ":" in s:
            raise Fail("%s_path_to_url(%r) = %r reads as a scheme" % (what, p, u))
        if re.search(r"%(?![0-9A-Fa-f]{2})", s):
            raise Fail("%s_path_to_url(%r) = %r has a broken escape" % (what, p, u))
        if "//" in s:
            raise Fail("%s_path_to_url(%r) = %r has an empty part" % (what, p, u))
        if norm(url_decode(s)) != norm(raw):
            raise Fail("%s_path_to_url(%r) = %r decodes to %r" % (what, p, u, url_decode(s)))
    if not d.endswith("/"):
        raise Fail("dir_path_to_url(%r) = %r does not end with a slash" % (p, d))
    if p and f.endswith("/") != (p.endswith("/") or norm(raw) == b"/" or (p.endswith("/.") )) and norm(raw) != b"":
        raise Fail("file_path_to_url(%r) = %r" % (p, f))

SCHEMES = ["http", "https", "file", "ftp", "c", "C", "x-y", "svn+ssh", "a.b", "", "mailto"]

def f_path_or_url(src, env):
    k = src.draw(4)
    tail = src.pick(["//host/a/b", "//host/a/", "a/b", "", "/", "x", "\\a\\b", "//host"])
    if k <= 2:
        t = src.pick(SCHEMES) + ":" + tail
    elif k == 3:
        t = src.pick(["a/b", "/a/b", "a", "./a:b", "a b:c", "..", "1http://x", "h_t:/x", "a/b:c", "ht tp://x"])
    else:
        t = src.text("aZ:/.+-_ 1", 0, 6, 3)
    app = src.pick(["x", "doc/src/a.css", "images", "a b"])
    m = re.match(r"([A-Za-z+.\-]+):", t)
    is_url = bool(m) and len(m.group(1)) > 1
    if re.match(r"[A-Za-z][A-Za-z0-9+.\-]*:", t) and not is_url and len(t.split(":")[0]) > 1:
        raise Discard("scheme with digits")
    r = env.unit("path_or_url", t, app)
    src.key = repr((t, app))
    src.sample = repr((t, app))
    src.nontrivial = ":" in t
    if not isinstance(r, list):
        raise Fail("path_or_url(%r) threw %r" % (t, r))
    r = [x.decode() for x in r]
    def same(x, want_url, text):
        if want_url:
            return x == "url:" + text
        return x.startswith("path:") and x[5:] == text
    first = "url:" + t if is_url else "path:" + t
    if r[0] != first or r[1] != first or r[2] != "empty" or r[3] != first:
        raise Fail("path_or_url(%r): got %r, expected %r" % (t, r[:4], first))
    if is_url:
        cut = t.rfind("/") if "/" in t else t.rfind(":")
        want = "url:" + t[:cut + 1] + app
    else:
        want = "path:" + (t + ("" if not t or t.endswith("/") else "/") + app)
    if r[4] != want:
        raise Fail("path_or_url(%r) / %r = %r, expected %r" % (t, app, r[4], want))
    if r[5] != first or r[6] != "url:http://w/" or r[7] != first:
        raise Fail("path_or_url(%r) / %r changed its operands or swap failed: %r" % (t, app, r[5:]))

DIRS = ["", "d/", "d/e/", "f/", "f/g h/", "d/e/k/"]
TARGETS = ["t.xml", "s u.xml", "x%41.xml", "../t.xml", "../v.xml", "d/t.xml", "../f/w.xml", "../../r.xml", "./t.xml", "q/../t.xml",
           "é.xml", "a+b.xml", "o/p.xml"]

def f_xinclude(src, env):
    """The href of an xinclude leads from the output (or the given base) to
    the file that the author named relative to his own file."""
    maindir = src.pick(DIRS)
    outdir = src.pick(DIRS)
    targets, files = [], {}
    for d in DIRS:
        files[d + ".keep" if d else ".keep"] = ""
    ver = src.pick(["1.6", "1.7"])
    body = "[quickbook %s]\n[article T]\n\n" % ver
    def some(cur, v):
        out = ""
        for _ in src.many(1, 3, 1.7):
            t = src.pick(TARGETS)
            targets.append(posixpath.normpath(posixpath.join("/root", cur, t)))
            out += "[xinclude %s]\n\n" % (t if v == "1.6" else t.replace(" ", "\\u0020"))
        return out
    body += some(maindir, ver)
    nested = src.bool(0.6)
    if nested:
        sub = src.pick(DIRS)
        rel = posixpath.relpath("/" + sub + "inc.qbk", "/" + maindir)
        if posixpath.normpath(maindir + "main.qbk") == posixpath.normpath(sub + "inc.qbk"):
            raise Discard("same file")
        body += "[include %s]\n\n" % (rel if ver == "1.6" else rel.replace(" ", "\\u0020"))
        ver2 = src.pick(["1.6", "1.7"])
        files[sub + "inc.qbk"] = "[quickbook %s]\n" % ver2 + some(sub, ver2)
        body += some(maindir, ver)
    files[maindir + "main.qbk"] = body
    base = outdir
    args = [maindir + "main.qbk", "--output-file", outdir + "out.xml"]
    if src.bool(0.3):
        base = src.pick(DIRS)
        args += ["--xinclude-base", base or "."]
    r = env.run(files, args)
    src.key = repr((files, args))
    src.sample = "%s with targets %s from %s" % (args, targets, base)
    src.nontrivial = nested or base != maindir
    if r.kind != "exit" or r.code != 0:
        raise Fail("xinclude run failed: %s\n%r" % (r.describe(), files))
    out = r.files[outdir + "out.xml"].decode()
    hrefs = re.findall(r'<xi:include[^>]*href="([^"]*)"', out)
    got = []
    for h in hrefs:
        h = h.replace("&amp;", "&").replace("&quot;", '"').replace("&lt;", "<").replace("&gt;", ">")
        got.append(posixpath.normpath(posixpath.join("/root", base, url_decode(h).decode())))
    if got != targets:
        raise Fail("xinclude hrefs %r from %r lead to %r, expected %r\n%r %r" % (hrefs, base, got, targets, args, files))

def f_xmlbase(src, env):
    """An [xmlbase] in the document info of a file is written as the xml:base
    of its root element, and all the links in it are relative to that. Read as
    XML Base says, every xinclude still leads to the file that the author
    named relative to his own file, also after a nested document has ended."""
    targets, files = [], {}
    dirs = DIRS + ["k&l/", "m'n/"]
    for d in dirs:
        files[d + ".keep" if d else ".keep"] = ""
    def rel(a, cur):
        return posixpath.relpath("/" + a, "/" + cur)
    def some(cur, v):
        out = ""
        for _ in src.many(1, 2, 1.4):
            t = src.pick(TARGETS)
            targets.append(posixpath.normpath(posixpath.join("/root", cur, t)))
            out += "[xinclude %s]\n\n" % (t if v == "1.6" else t.replace(" ", "\\u0020"))
        return out
    bases = [0]
    def info(cur, v, p):
        x = ""
        if src.bool(p):
            bases[0] += 1
            x = "\n[xmlbase %s%s]" % (rel(src.pick(dirs), cur), src.pick(["", "", "/"]))
        return "[article T%s\n]\n\n" % ("\n[quickbook %s]%s" % (v, x) if src.bool() else "%s\n[quickbook %s]" % (x, v))
    number = [0]
    def doc(cur, depth, p, known):
        v = src.pick(["1.6", "1.7"])
        body = info(cur, v, p) if depth == 0 or src.bool(0.8) else "[quickbook %s]\n\n" % v
        if src.bool(0.4):
            # what a template names is relative to the file it is written in
            number[0] += 1
            t = src.pick(TARGETS)
            known = known + [("x%d" % number[0], posixpath.normpath(posixpath.join("/root", cur, t)))]
            body += "[template %s[]\n[xinclude %s]\n]\n\n" % (known[-1][0], t if v == "1.6" else t.replace(" ", "\\u0020"))
        body += some(cur, v)
        def call():
            if known and src.bool():
                n, t = src.pick(known)
                targets.append(t)
                src.label("template")
                return "[%s]\n\n" % n
            return ""
        body += call()
        for _ in src.many(0, 2, 1.3 - depth * 0.5) if depth < 2 else ():
            number[0] += 1
            sub = src.pick(dirs)
            name = "i%d.qbk" % number[0]
            if v == "1.7":
                body += "[include %s]\n\n" % rel(sub + name, cur).replace(" ", "\\u0020")
            else:
                body += "[include %s]\n\n" % rel(sub + name, cur)
            files[sub + name] = doc(sub, depth + 1, 0.6, known)
            body += some(cur, v) + call()
        return body
    maindir, outdir = src.pick(dirs), src.pick(dirs)
    files[maindir + "main.qbk"] = doc(maindir, 0, 0.8, [])
    base = outdir
    args = [maindir + "main.qbk", "--output-file", outdir + "out.xml"]
    if src.bool(0.3):
        base = src.pick(dirs)
        args += ["--xinclude-base", base or "."]
    r = env.run(files, args)
    src.key = repr((files, args))
    src.sample = "%s with targets %s from %s, %d xml:base" % (args, targets, base, bases[0])
    src.nontrivial = bases[0] > 0
    src.label("nested" if number[0] else "single")
    if bases[0] > 1:
        src.label("several")
    if r.kind != "exit" or r.code != 0:
        raise Fail("xmlbase run failed: %s\n%r" % (r.describe(), files))
    got, seen = [], [0]
    def walk(e, at):
        if isinstance(e, str):
            return
        b = e.attrs.get("xml:base")
        if b is not None:
            seen[0] += 1
            if not b.endswith("/"):
                raise Fail("xml:base %r isn't a directory's URL\n%r" % (b, files))
            at = posixpath.join(at, url_decode(b).decode())
        if e.tag == "xi:include":
            got.append(posixpath.normpath(posixpath.join(at, url_decode(e.attrs["href"]).decode())))
        for k in e.kids:
            walk(k, at)
    walk(parse_xml(r.files[outdir + "out.xml"])[0], posixpath.join("/root", base))
    if seen[0] != bases[0]:
        raise Fail("%d documents with an xml:base, %d written\n%r %r" % (bases[0], seen[0], args, files))
    if got != targets:
        raise Fail("with xml:base the xincludes lead to %r, expected %r\n%r %r\n%s"
                   % (got, targets, args, files, r.files[outdir + "out.xml"].decode()))

PROPERTY = {
    "id": "C23",
    "rule": "difference: different paths with a common directory; url: the path has a character outside letters, digits, / and .; "
            "path_or_url: the text has a colon; xinclude: another file includes, or the base is not the document's directory; xmlbase: some document has an xml:base",
    "families": [
        Family("difference", f_difference, 48000, rule="base and path with dots, doubled and trailing slashes, spaces and UTF-8, resolved against posixpath"),
        Family("url", f_url, 48000),
        Family("path_or_url", f_path_or_url, 32000),
        Family("xinclude", f_xinclude, 8000, rule="documents and included files in a directory tree, output elsewhere"),
        Family("xmlbase", f_xmlbase, 6000, rule="nested documents with xmlbase in their document info in a directory tree; links resolved as XML Base says"),
    ],
}
