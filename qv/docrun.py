"""Running a generated document and comparing its output with a tree."""
from .engine import Fail
from .xmltree import E, canon, diff, walk, parse_xml, NotWellFormed
from .docgen import body_of

PLAIN = ["--no-pretty-print", "--no-self-linked-headers"]

def convert(env, doc, args=PLAIN, files=None, out="o.xml", ok=True, timeout=20):
    fs = {"m.qbk": doc}
    fs.update(files or {})
    res = env.run(fs, ["m.qbk", "--output-file", out] + list(args), timeout=timeout)
    if res.kind != "exit" or res.code not in (0, 1):
        raise Fail("the run failed:\n%s\n%s" % (show_files(fs), res.describe()))
    if ok and res.code:
        raise Fail("a correct document was rejected:\n%s\n%s" % (show_files(fs), res.describe()))
    if not ok and res.code == 0:
        raise Fail("an incorrect document was accepted:\n%s\n%s" % (show_files(fs), res.files.get(out, b"").decode("utf-8", "replace")))
    return res

def show_files(fs):
    return "\n".join("----- %s\n%s" % (k, v if isinstance(v, str) else repr(v)) for k, v in fs.items() if v)

def tree(doc, res, out="o.xml"):
    try:
        root, _ = parse_xml(res.files[out])
    except NotWellFormed as e:
        raise Fail("the output is not well formed (%s):\n%s\n%s" % (e, doc, res.files[out].decode("utf-8", "replace")))
    except KeyError:
        raise Fail("no output file: %s\n%s" % (doc, res.describe()))
    return root

def drop_root_attributes(root):
    """Included documents have the attributes of a root."""
    for e in walk(root):
        if isinstance(e, E) and "last-revision" in e.attrs:
            e.attrs = {k: v for k, v in e.attrs.items() if k not in ("last-revision", "xmlns:xi")}

def compare(doc, want, res, out="o.xml", ids=False, clean=None):
    """The body of the output against the expected nodes."""
    root = tree(doc, res, out)
    if clean:
        clean(root)
    d = diff(canon(E("#body", {}, want), ids), canon(E("#body", {}, body_of(root)), ids))
    if d:
        raise Fail("%s\n----- document\n%s\n----- output\n%s" % (d, doc, res.files[out].decode("utf-8", "replace")))
    return root
