"""C05: inline markup becomes the documented element tree."""
import re
from ..engine import Fail, Discard, Family
from ..docgen import Gen, header, body_of, VERSIONS, SIMPLE, INLINE
from ..refphrase import Ref, Bad
from ..xmltree import E, canon, diff, parse_xml, NotWellFormed
from ..docrun import convert, compare

MARKS = ["*", "/", "_", "="]
SOUP = ["a", "x", " ", "*", "/", "_", "=", ".", ",", "(", ")", "\n", "[*", "['", "[_", "[^", "[-", "[\"", "[~", "[* ", "]", "]", "[", "`", "\\", "\\*", "\\]",
        "[/", "[/ c]", "\\u0041", "&", "<", ">", '"', "'", "9", "\t", "\u00e9", "-", "\n\nq", "\\ ", "b", ";", "**", "*a*", "/x/", "~", "'''", "'''x*'''"]

def soup(src, lo, hi, mean, toks):
    return "".join(toks[src.draw(len(toks) - 1)] for _ in src.many(lo, hi, mean))

def check_ref(src, env, text, ver):
    if "``" in text or re.search(r"\\\n|\\n", text):
        raise Discard("outside the reference's domain")
    body = "o " + text
    if re.search(r"\n[ \t]*\n[ \t]*[^q\n \t]", body) or re.search(r"\n[ \t]*\n[ \t]+q", body):
        raise Discard("a block construct")
    doc = header(ver) + body + "\n"
    src.key = "%d:%s" % (ver, text)
    src.sample = "1.%d: %s" % (ver - 100, text)
    ref = Ref(body + "\n", ver)
    try:
        want = ref.document()
    except Bad:
        want = None
    except RecursionError:
        raise Discard("too long")
    res = env.run({"m.qbk": doc}, ["m.qbk", "--output-file", "o.xml", "--no-pretty-print", "--no-self-linked-headers"])
    if res.kind != "exit" or res.code not in (0, 1):
        raise Fail("the run failed:\n%s\n%s" % (doc, res.describe()))
    if want is None:
        src.label("mismatched brackets")
        if res.code == 0:
            raise Fail("brackets do not match, but there was no error:\n%s\n%s" % (doc, res.files.get("o.xml", b"").decode("utf-8", "replace")))
        return
    if any("<" in r or "&" in r for r in ref.raws):
        raise Discard("markup of the author's own")
    if ref.raws: src.label("raw text")
    if res.code:
        raise Fail("the brackets match, but the run failed:\n%s\n%s" % (doc, res.describe()))
    n = sum(1 for p in want for k in walk_el(p)) - len(want)
    src.nontrivial = n > 0
    if n > 1: src.label("several elements")
    compare(doc, want, res)

def walk_el(n):
    if isinstance(n, E):
        yield n
        for k in n.kids:
            yield from walk_el(k)

def f_marks(src, env):
    """Simple markup between all kinds of neighbours."""
    ver = src.pick(VERSIONS)
    marks = [src.pick(MARKS) for _ in range(src.int(1, 2))]
    out = ""
    brackets = 1 if src.bool(0.2) else 0
    raws = 1 if src.bool(0.3) else 0
    for _ in src.many(2, 14, 9):
        out += src.pick(marks) if src.bool(0.45) else src.weighted([(6, "a"), (4, " "), (2, "."), (1, "("), (1, ")"), (2, "9b"), (1, "\n"), (1, "\u00e9"), (1, "-"),
                                                                    (brackets, "]"), (brackets, "[* "), (1, "\\"), (brackets, "["), (1, "`"), (1, "[/ c]"),
                                                                    (raws, "'''"), (raws, "'''r* a'''")])
    check_ref(src, env, out, ver)

def f_soup(src, env):
    ver = src.pick(VERSIONS)
    check_ref(src, env, soup(src, 1, 40, 16, SOUP), ver)

def f_balanced(src, env):
    """Soup with balanced brackets, so that most texts are correct."""
    ver = src.pick(VERSIONS)
    flat = [t for t in SOUP if "[" not in t and "]" not in t] + ["\\]", "\\[", "[/ c]"]
    def part(d):
        out = ""
        for _ in src.many(0 if d else 1, 7, 3.5):
            if d < 3 and src.bool(0.3):
                m = src.weighted([(8, None), (2, ""), (1, "/")])
                if m is None:
                    m = src.pick(sorted(INLINE))
                out += "[" + m + src.pick(["", " ", "  ", " \t", "[/ c]", "\n"]) + part(d + 1) + "]"
            else:
                out += src.pick(flat)
        return out
    check_ref(src, env, part(0), ver)

def f_nested(src, env):
    ver = src.pick(VERSIONS)
    g = Gen(src, ver, {"inline": 20, "simple": 14, "role": 6, "footnote": 2, "url": 2, "code": 6})
    if ver < 106:
        g.pw["role"] = 0
    paras, want = [], []
    for _ in src.many(1, 3, 1.5):
        s, n = g.phrase(4, 1, 7, 4)
        s, n = g.guard(s, n, False)[0:2]
        paras.append(s)
        want += n
    doc = header(ver) + "\n\n".join(paras) + "\n"
    src.key = doc
    src.sample = "1.%d: %s" % (ver - 100, "\n\n".join(paras))
    els = [x.tag for p in want for x in walk_el(p)]
    src.nontrivial = len(els) > len(want) + 1
    res = convert(env, doc)
    compare(doc, want, res)

PROPERTY = {
    "id": "C05",
    "rule": "the text holds at least one inline element (nested: at least two)",
    "families": [
        Family("nested", f_nested, 6000, rule="nested inline constructs of every kind with the expected tree built alongside"),
        Family("marks", f_marks, 7000, rule="simple marks among spaces, punctuation and letters, against the reference reader"),
        Family("balanced", f_balanced, 5000, rule="token soup with balanced brackets, against the reference reader"),
        Family("soup", f_soup, 3000, rule="token soup, against the reference reader"),
    ],
}
