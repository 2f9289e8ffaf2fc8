"""C22 Glob patterns."""
import re
from ..engine import Family, Fail, Discard

class Invalid(Exception):
    pass

def parse(p):
    """pattern -> (list of ('lit', c) ('any',) ('star',) ('set', neg, ranges)).
    Raises Invalid.  Written from the documentation, not from glob.cpp."""
    out = []
    i, n = 0, len(p)
    def escaped(i):
        if i >= n:
            raise Invalid
        if p[i] in b"\\/":
            raise Invalid
        return p[i]
    while i < n:
        c = p[i]
        if c == 92:
            out.append(("lit", escaped(i + 1)))
            i += 2
        elif c == 93:
            raise Invalid
        elif c == 63:
            out.append(("any",))
            i += 1
        elif c == 42:
            if out and out[-1] == ("star",):
                raise Invalid
            out.append(("star",))
            i += 1
        elif c == 91:
            i += 1
            if i < n and p[i] == 93:
                raise Invalid
            neg = i < n and p[i] == 94
            if neg:
                i += 1
            toks = []                      # (char, was_escaped)
            while True:
                if i >= n:
                    raise Invalid
                c = p[i]
                if c == 93:
                    i += 1
                    break
                if c in b"[/":
                    raise Invalid
                if c == 92:
                    toks.append((escaped(i + 1), True))
                    i += 2
                else:
                    toks.append((c, False))
                    i += 1
            ranges = []
            k = 0
            while k < len(toks):
                if k + 2 < len(toks) and toks[k + 1] == (45, False):
                    ranges.append((toks[k][0], toks[k + 2][0]))
                    k += 3
                else:
                    ranges.append((toks[k][0], toks[k][0]))
                    k += 1
            out.append(("set", neg, ranges))
        else:
            out.append(("lit", c))
            i += 1
    return out

def analyse(p):
    """'invalid', or (is_glob, tokens)"""
    try:
        t = parse(p)
    except Invalid:
        return "invalid"
    is_glob = any(x[0] != "lit" for x in t)
    if is_glob and any(c < 32 or c >= 128 for c in p):
        return "invalid"
    return is_glob, t

def matches(tokens, name):
    if not name:
        return not tokens          # an empty name matches only the empty pattern
    # dynamic programming over all ways to lay the pattern over the name
    cur = {0}
    for t in tokens:
        nxt = set()
        if t[0] == "star":
            if cur:
                nxt = set(range(min(cur), len(name) + 1))
        else:
            for i in cur:
                if i < len(name):
                    c = name[i]
                    if t[0] == "any":
                        ok = True
                    elif t[0] == "lit":
                        ok = c == t[1]
                    else:
                        ok = (c < 128 and any(a <= c <= b for a, b in t[2])) != t[1]
                    if ok:
                        nxt.add(i + 1)
        cur = nxt
        if not cur:
            return False
    return len(name) in cur

def compare(p, names, env):
    want = analyse(p)
    r = env.unit("glob", p, *names)
    if want == "invalid":
        if r[0] != b"invalid":
            raise Fail("malformed glob %r is accepted" % (p,))
        return want
    if r[0] == b"invalid":
        raise Fail("glob %r is rejected: %r" % (p, r[1]))
    if (r[0] == b"1") != want[0]:
        raise Fail("check_glob(%r) says glob=%r, expected %r" % (p, r[0], want[0]))
    for n, g in zip(names, r[1:]):
        w = matches(want[1], n)
        if (g == b"1") != w:
            raise Fail("glob(%r, %r) = %r, expected %r" % (p, n, g, w))
    return want

SMALL = b"ab[]^-?*\\/"
def f_small(src, env):
    p = src.bytes(0, 7, 4, alphabet=SMALL)
    names = [src.bytes(0, 5, 2.5, alphabet=b"ab-]^\\*?[") for _ in range(6)]
    src.key = repr((p, names))
    src.sample = "%r ~ %r" % (p, names)
    r = compare(p, names, env)
    src.label("invalid" if r == "invalid" else "glob" if r[0] else "plain")
    src.nontrivial = r != "invalid" and r[0]

def gen_valid(src):
    p = bytearray()
    last_star = False
    for _ in src.many(1, 8, 4):
        k = src.draw(9)
        if k <= 3:
            p.append(src.pick(b"abcde.-_"))
            last_star = False
        elif k == 4:
            p += b"?"
            last_star = False
        elif k <= 6:
            if not last_star:
                p += b"*"
            last_star = True
        elif k == 7:
            p += b"\\" + bytes([src.pick(b"abc[]*?^-")])
            last_star = False
        else:
            p += b"["
            if src.bool(0.4):
                p += b"^"
            for _ in src.many(1, 4, 2):
                j = src.draw(4)
                if j == 0:
                    p.append(src.pick(b"abcde"))
                elif j == 1:
                    a, b = sorted((src.pick(b"abcdefg"), src.pick(b"abcdefg")))
                    p += bytes([a]) + b"-" + bytes([b])
                elif j == 2:
                    p += b"\\" + bytes([src.pick(b"]-^[a")])
                elif j == 3:
                    p += b"-"
                else:
                    p += bytes([src.pick(b"efg")]) + b"-" + bytes([src.pick(b"abg")])
            p += b"]"
            last_star = False
    return bytes(p)

def gen_name(src, tokens):
    """A name that matches the tokens, then perhaps spoilt."""
    out = bytearray()
    for t in tokens:
        if t[0] == "lit":
            out.append(t[1])
        elif t[0] == "any":
            out.append(src.pick(b"abcz."))
        elif t[0] == "star":
            out += src.bytes(0, 4, 1.5, alphabet=b"abcde.")
        else:
            good = [c for c in range(33, 127) if any(a <= c <= b for a, b in t[2]) != t[1] and c != 47]
            out.append(src.pick(good) if good else 97)
    k = src.draw(5)
    if k == 1 and out:
        del out[src.draw(len(out) - 1)]
    elif k == 2:
        out.insert(src.draw(len(out)), src.pick(b"abcde.-]"))
    elif k == 3 and out:
        out[src.draw(len(out) - 1)] = src.pick(b"abcdefg-^]")
    elif k == 4:
        out += out[-2:]
    return bytes(out)

def f_match(src, env):
    p = gen_valid(src)
    w = analyse(p)
    if w == "invalid":
        names = [b"a", b""]
    else:
        names = [gen_name(src, w[1]) for _ in range(6)]
    src.key = repr((p, names))
    src.sample = "%r ~ %r" % (p, names)
    r = compare(p, names, env)
    src.nontrivial = r != "invalid" and r[0] and any(matches(r[1], n) for n in names)
    if r != "invalid":
        src.label("some match" if any(matches(r[1], n) for n in names) else "none match")

def f_ascii(src, env):
    p = bytearray(gen_valid(src))
    p.insert(src.draw(len(p)), src.pick([1, 9, 31, 127, 128, 195, 255, 32]))
    p = bytes(p)
    n = src.bytes(0, 4, 2, alphabet=[97, 98, 195, 169, 255])
    src.key = repr((p, n))
    src.sample = repr(p)
    src.nontrivial = True
    compare(p, [n, b"ab"], env)

def f_unescape(src, env):
    p = src.bytes(0, 10, 4, alphabet=b"ab\\[]?*/\xff")
    src.key = p
    src.sample = repr(p)
    src.nontrivial = b"\\" in p
    u, = env.unit("glob_unescape", p)
    want = re.sub(rb"\\([\s\S])", rb"\1", re.sub(rb"((?:[^\\]|\\[\s\S])*)\\$", rb"\1", p) if re.fullmatch(rb"(?:[^\\]|\\[\s\S])*\\", p) else p)
    if u != want:
        raise Fail("glob_unescape(%r) = %r, expected %r" % (p, u, want))
    # an escaped literal is not a glob and unescapes to itself
    lit = b"".join((b"\\" if c in b"[]?*" else b"") + bytes([c]) for c in p if c not in b"\\/")
    r = env.unit("glob", lit)
    if r[0] != b"0":
        raise Fail("escaped literal %r is taken for a glob" % lit)
    u, = env.unit("glob_unescape", lit)
    if u != bytes(c for c in p if c not in b"\\/"):
        raise Fail("glob_unescape(%r) = %r" % (lit, u))
    f, = env.unit("find_glob_char", lit, 0)
    if f != b"-1":
        raise Fail("find_glob_char(%r) = %r" % (lit, f))
    tail = src.pick([b"*", b"?", b"[a]"])
    f, = env.unit("find_glob_char", lit + tail + b"a*", 0)
    if int(f) != len(lit):
        raise Fail("find_glob_char(%r) = %r, expected %d" % (lit + tail + b"a*", f, len(lit)))

# -- whole program: including and importing by glob ---------------------

NAMES = ["a", "b", "ab", "ba", "abc", "c", "a.b", "a-b", "b1", "b2", "a]", "c*", "[b", "a?"]
DIRNAMES = ["a", "b", "ab", "c", "a", "b", "ab", "c", "d]", "[e", "a*"]

def generalise(src, comp):
    """A pattern grown from a name that exists."""
    out, i = "", 0
    while i < len(comp):
        k = src.draw(11)
        c = comp[i]
        if k == 6:
            out += "?"
        elif k == 7:
            out += src.pick(["[%s]", "[a-c%s]", "[^z%s]", "[%sxyz]", "[^%s]"]) % (("\\" if c in "]-" else "") + c)
        elif k >= 9:
            n = src.int(0, 3)
            if not out.endswith("*") or out.endswith("\\*"):
                out += "*"
            i += n
            continue
        elif k == 8:
            out += src.pick(["[a-b]", "[b-z.]", "x", ""])
        else:
            out += ("\\" if c in "[]?*" else "") + c
        i += 1
    return out

def f_include(src, env):
    """Trees of files, each holding a mark, and one path that is taken from
    a file that exists.  The tree is searched from the document's directory
    and from every include directory."""
    files, paths = {}, []
    roots = [""] + src.pick([[], [], ["y/"], ["y/", "x/"], ["x/", "z/", "y/"]])
    for root in roots:
        dirs = [root]
        for _ in src.many(0, 3, 1.5):
            d = src.pick(dirs) + src.pick(DIRNAMES) + "/"
            if d not in dirs:
                dirs.append(d)
        for d in dirs:
            for nm in NAMES:
                if src.bool(0.4 if len(roots) < 2 else 0.2):
                    paths.append(d + nm + ".qbk")
    paths = sorted(set(paths))
    if not paths:
        raise Discard("no files")
    for i, pth in enumerate(paths):
        files[pth] = "[quickbook 1.7]\nmark%d\n" % i
    where = [(root, pth[len(root):], i) for root in roots for i, pth in enumerate(paths)
             if pth.startswith(root)]
    tops = sorted(set(pth.split("/")[0] for root, pth, i in where if not root and "/" in pth))
    if tops and src.bool(0.2):
        # a directory by another name
        t = src.pick(tops)
        files["ln"] = ("link", t)
        src.label("link")
        where += [("", "ln" + pth[len(t):], i) for root, pth, i in where if not root and pth.startswith(t + "/")]
    target = src.pick(where)[1]
    file_as_dir = src.bool(0.08)
    comps = [generalise(src, c) if not src.bool(0.15) else "".join(("\\" if x in "[]?*" else "") + x for x in c) for c in target.split("/")]
    if file_as_dir:
        src.label("a file as a directory")
        comps.append(src.pick(["*", "*.qbk", "a.qbk"]))
    if not all(comps):
        raise Discard("empty component")
    toks, any_glob = [], False
    for c in comps:
        w = analyse(c.encode())
        if w == "invalid":
            raise Discard("invalid")
        toks.append(w[1])
        any_glob = any_glob or w[0]
    if not any_glob and file_as_dir:
        raise Discard("no such file")
    if len(toks) == 1 and matches(toks[0], b"main.qbk"):
        raise Discard("includes itself")
    # The pattern's components cannot themselves be . or ..
    pat = "/".join(comps)
    found = [(pth.split("/"), roots.index(root), i) for root, pth, i in where
             if pth.count("/") + 1 == len(toks) and all(matches(t, c.encode()) for t, c in zip(toks, pth.split("/")))]
    # in the order of their names, and of the include directories
    found.sort()
    if not any_glob:
        src.label("no glob")
        found = sorted(found, key=lambda x: x[1])[:1]
        if not found:
            raise Discard("no such file")
    elif len(set(len(x[0]) for x in found)) > 1:
        raise Discard("several depths")
    return files, roots, pat, found, paths

def f_glob_include(src, env):
    files, roots, pat, found, paths = f_include(src, env)
    # [ and ] and \ need escaping in the include's path argument
    files["main.qbk"] = "[quickbook 1.7]\n[article T]\n\nbefore\n\n[include " + pat.replace("\\", "\\\\").replace("[", "\\[").replace("]", "\\]") + "]\n\nafter\n"
    src.sample = "%s over %s%s" % (pat, " ".join(paths), " and -I %s" % roots[1:] if roots[1:] else "")
    src.key = src.sample
    src.nontrivial = len(found) >= 1
    src.label("%d matches" % min(len(found), 4))
    if len(set(r for _, r, _ in found)) > 1: src.label("matches in several include directories")
    if any(c in "[]?*" for n, _, _ in found for c in "".join(n)): src.label("special characters in a matching name")
    args = ["--no-self-linked-headers"]
    for r in roots[1:]:
        args += ["-I", r.rstrip("/")]
    r = env.run(files, args + ["main.qbk"])
    if r.kind != "exit":
        raise Fail("run failed on %s: %s" % (pat, r.describe()))
    out = r.files.get("main.xml", b"").decode("utf-8", "replace")
    got = [int(x) for x in re.findall(r"mark(\d+)", out)]
    expect = [i for _, _, i in found]
    if r.code != 0:
        raise Fail("include of %s failed, files: %s, %s\n%s" % (pat, paths, args, r.describe()))
    if sorted(got) != sorted(expect):
        raise Fail("include of %r found %r, expected %r (files %r, %s)" % (
            pat, [paths[i] for i in got], [paths[i] for i in expect], paths, args))
    if got != expect:
        raise Fail("include of %r gave the order %r, expected %r (%s)" % (
            pat, [paths[i] for i in got], [paths[i] for i in expect], args))

PROPERTY = {
    "id": "C22",
    "rule": "the pattern is a valid glob (has a wildcard or a range); for the match and include families at least one name matches it",
    "families": [
        Family("small", f_small, 60000, rule="all short patterns over ab[]^-?*\\/ with short names, malformed ones included"),
        Family("match", f_match, 48000, rule="valid patterns with names grown from the pattern and then spoilt"),
        Family("ascii", f_ascii, 12000, rule="patterns with control and non-ASCII characters"),
        Family("unescape", f_unescape, 20000),
        Family("include", f_glob_include, 6000, rule="directory trees, also in include directories and behind symbolic links, and [include path or glob]; the included files and their order"),
    ],
}
