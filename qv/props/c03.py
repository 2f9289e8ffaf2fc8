"""C03: successful conversions give well-formed BoostBook."""
import re
from ..engine import Fail, Discard, Family
from ..docgen import Gen, VERSIONS, header
from ..docrun import convert
from ..soup import document, Soup
from ..xmltree import E, parse_xml, NotWellFormed

ARGS = [[], ["--no-pretty-print"], ["--linewidth", "1"], ["--linewidth", "25"], ["--indent", "0"], ["--indent", "7", "--linewidth", "60"], ["--no-self-linked-headers"],
        ["--no-pretty-print", "--no-self-linked-headers"]]
TYPES = ["article", "book", "chapter", "part", "library", "appendix", "preface", "qandadiv", "qandaset", "reference", "set"]

def check(res, typ, what):
    data = res.files.get("o.xml")
    if data is None:
        raise Fail("a run succeeded without output:\n%s\n%s" % (what, res.describe()))
    try:
        text = data.decode("utf-8")
    except UnicodeDecodeError as e:
        raise Fail("the output is not UTF-8 (%s):\n%s\n%r" % (e, what, data))
    try:
        root, dt = parse_xml(data)
    except NotWellFormed as e:
        raise Fail("the output is not well formed (%s):\n%s\n----- output\n%s" % (e, what, text))
    if root.tag != typ or dt != typ:
        raise Fail("the document type is %s; the root element is %s and the declared type %s:\n%s" % (typ, root.tag, dt, what))
    if not re.match(r'<\?xml\s+version="1.0"\s+encoding="UTF-8"\s*\?>', text):
        raise Fail("no XML declaration:\n%s" % text[:200])
    return root

def f_documents(src, env):
    ver = src.pick(VERSIONS)
    g = Gen(src, ver, {"footnote": 2, "link": 2, "url": 2, "ref": 2}, {"heading": 3})
    typ = src.pick(TYPES)
    doc = header(ver, typ) + g.blocks(3, 1, 8, 5)[0] + "\n"
    src.key = src.sample = doc
    src.nontrivial = len(g.counts) > 3
    args = src.pick(ARGS)
    check(convert(env, doc, args=args), typ, doc + repr(args))

def f_soup(src, env):
    doc, files, s = document(src, raw=False, breaks=False, errors=src.bool(0.3))
    src.key = doc + repr(sorted(files.items()))
    src.sample = {"document": doc, "files": files}
    args = src.pick(ARGS)
    typ = re.match(r"\[([a-z]+)", doc).group(1)
    fs = dict(files)
    fs["m.qbk"] = doc
    res = env.run(fs, ["m.qbk", "--output-file", "o.xml"] + args)
    if res.kind == "timeout":
        raise Discard("takes long")
    if res.kind != "exit" or res.code not in (0, 1):
        raise Fail("the run failed:\n%s\n%r\n%s" % (doc, files, res.describe()))
    src.label("accepted" if res.code == 0 else "rejected")
    src.nontrivial = res.code == 0
    if res.code == 0:
        check(res, typ, doc + "\n" + repr(files) + repr(args))
    elif b"post processing" in res.err.lower() or b"xml" in res.err.lower() and b"error" in res.err.lower() and "xinclude" not in doc:
        # the pretty printer refuses what the translation made
        raise Fail("the translation could not be post-processed:\n%s\n%r\n%s" % (doc, files, res.describe()))

PROPERTY = {
    "id": "C03",
    "rule": "the conversion succeeded and the document has several kinds of construct",
    "families": [
        Family("documents", f_documents, 3500, rule="correct documents of all types and versions, printed in different ways"),
        Family("soup", f_soup, 9000, rule="documents with every construct in plausible and implausible places; those that are accepted must be well formed"),
    ],
}
