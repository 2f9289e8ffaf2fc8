"""C17: newline style and byte order mark do not change the result."""
import re
from ..engine import Fail, Discard, Family
from ..docgen import Gen, VERSIONS, header
from ..docrun import show_files
from ..soup import document
from ..xmltree import parse_xml, text_of

BOM = b"\xef\xbb\xbf"
TEXT = (".qbk", ".cpp", ".py", ".hpp", ".txt")

def enc(s):
    return s if isinstance(s, bytes) else s.encode("utf-8", "surrogateescape")

def restyle(src, data, style):
    data = enc(data)
    if style == "lf": return data
    if style == "crlf": return data.replace(b"\n", b"\r\n")
    if style == "cr": return data.replace(b"\n", b"\r")
    out = b""
    for i, line in enumerate(data.split(b"\n")):
        if i:
            # a CR before an empty line that ends in LF would be one newline
            end = [b"\n", b"\r\n", b"\r"][src.draw(2)]
            if end == b"\n" and out.endswith(b"\r"):
                end = b"\r\n"
            out += end
        out += line
    return out

def result(env, files, args):
    res = env.run(files, args)
    if res.kind == "timeout":
        raise Discard("takes long")
    if res.kind != "exit" or res.code not in (0, 1):
        raise Fail("the run failed:\n%s\n%s" % (show_files(files), res.describe()))
    return res

def same(files, files2, a, b):
    for what, x, y in (("exit status", a.code, b.code), ("diagnostics", a.err, b.err), ("printed text", a.out, b.out)):
        if x != y:
            raise Fail("the %s differ:\n%s\n----- before\n%s\n----- after\n%s\n%s" % (what, show_files(files), x, y, show_files({k: repr(v) for k, v in files2.items()})))
    inputs = set(files)
    fa = {k: v for k, v in a.files.items() if k not in inputs}
    fb = {k: v for k, v in b.files.items() if k not in inputs}
    if fa != fb:
        k = sorted(k for k in set(fa) | set(fb) if fa.get(k) != fb.get(k))[0]
        raise Fail("%s differs:\n%s\n----- before\n%r\n----- after\n%r\n%s" % (k, show_files(files), fa.get(k), fb.get(k), show_files({k: repr(v) for k, v in files2.items()})))

ARGS = [["m.qbk", "--output-file", "o.xml", "--debug"], ["m.qbk", "--output-file", "o.xml", "--debug", "--no-pretty-print"], ["m.qbk", "--output-file", "o.xml", "--debug", "--strict"],
        ["m.qbk", "--output-file", "o.xml", "--debug", "--output-deps", "d.txt"], ["m.qbk", "--output-file", "o.html", "--output-format", "onehtml", "--debug"],
        ["m.qbk", "--output-file", "o.xml", "--debug", "--ms-errors"]]

def f_newlines(src, env):
    doc, files, s = document(src, errors=src.bool(0.5))
    files = dict(files)
    files["m.qbk"] = doc
    args = src.pick(ARGS)
    files2, styles = {}, set()
    for k, v in files.items():
        if v is None or not k.endswith(TEXT):
            files2[k] = v
            continue
        style = src.pick(["crlf", "cr", "mixed", "lf"])
        bom = src.bool(0.4)
        styles.add((style, bom))
        files2[k] = (BOM if bom else b"") + restyle(src, v, style)
    src.key = repr(sorted(files2.items()))
    src.sample = {k: repr(v)[:300] for k, v in files2.items()}
    src.nontrivial = any(b"\r" in enc(v) or enc(v).startswith(BOM) for v in files2.values() if v is not None)
    a = env.run(files, args)
    if a.kind != "exit" or a.code not in (0, 1):
        raise Discard("takes long or crashes either way (see C01)")
    b = result(env, files2, args)
    src.label("accepted" if a.code == 0 else "rejected")
    same(files, files2, a, b)

def f_encodings(src, env):
    """Other encodings, in the main or another file."""
    codec, bom = src.pick([("utf-16-le", b"\xff\xfe"), ("utf-16-be", b"\xfe\xff"), ("utf-32-le", b"\xff\xfe\0\0"), ("utf-32-be", b"\0\0\xfe\xff")])
    ver = src.pick(VERSIONS)
    how = src.pick(["main", "include", "import", "import-source", "empty", "include-text"])
    main = header(ver)
    body = "plain text %s\n" % Gen(src, ver).plain_words(1, 4)
    files = {}
    if how in ("main", "empty"):
        main += body
        data = bom + (main.encode(codec) if how == "main" else b"")
        files["m.qbk"] = data
    else:
        name = {"include": "a.qbk", "import": "a.qbk", "import-source": "a.cpp", "include-text": "a.py"}[how]
        main += "before\n\n[%s %s]\n\n%s" % ("include" if how.startswith("include") else "import", name, body)
        files = {"m.qbk": main, name: bom + {"a.qbk": "text\n", "a.cpp": "//[x\nint a;\n//]\n", "a.py": "#[x\na\n#]\n"}[name].encode(codec)}
    if src.bool(0.2):
        for k in files:
            if enc(files[k]).startswith(bom):
                files[k] = enc(files[k])[:len(bom) + src.int(0, 9)]
    src.key = repr(sorted(files.items()))
    src.sample = {k: repr(v)[:200] for k, v in files.items()}
    src.nontrivial = True
    src.label(codec + " " + how)
    fmt = src.pick([["--output-file", "o.xml"], ["--output-file", "o.html", "--output-format", "onehtml"]])
    res = result(env, files, ["m.qbk"] + fmt)
    if res.code != 1:
        raise Fail("a file in %s was accepted:\n%s\n%s" % (codec, show_files(files), res.describe()))
    left = [k for k in res.files if k.startswith("o.")]
    if left:
        raise Fail("a file in %s was rejected, but %s was written:\n%s" % (codec, left, show_files(files)))
    if not res.err.strip() and not res.out.strip():
        raise Fail("no diagnostic for a file in %s:\n%s" % (codec, show_files(files)))

LOOK = [b"\xef\xbf\xbd", b"\xef\xbb\xbc", b"\xef\xbc\x81", b"\xef\xbb\xbe", b"\xef\xac\x81", b"\xef\xba\xbf"]

def f_lookalikes(src, env):
    """Text that starts like a byte order mark is text."""
    ver = src.pick(VERSIONS)
    first = src.pick(LOOK)
    rest = Gen(src, ver).plain_words(1, 3)
    text = first + enc(src.pick(["", " "]) + rest)
    if src.bool(0.3):
        text = BOM + text
    files = {"m.qbk": header(ver) + "[include a.qbk]\n", "a.qbk": text + src.pick([b"\n", b"", b"\r", b"\r\n"])}
    src.key = repr(sorted(files.items()))
    src.sample = repr(text)
    src.nontrivial = True
    res = result(env, files, ["m.qbk", "--output-file", "o.xml", "--no-pretty-print"])
    if res.code:
        raise Fail("a correct document was rejected: %r\n%s" % (files, res.describe()))
    want = (text[3:] if text.startswith(BOM) else text).decode("utf-8")
    root, _ = parse_xml(res.files["o.xml"])
    got = [text_of(p) for p in root.kids if getattr(p, "tag", "") == "para"]
    if [g.strip() for g in got] != [want.strip()]:
        raise Fail("the text is %r and the output holds %r:\n%r" % (want, got, files))

PROPERTY = {
    "id": "C17",
    "rule": "some file has carriage returns, a byte order mark or another encoding",
    "families": [
        Family("newlines", f_newlines, 7000, rule="documents, snippet sources and included files of every kind, correct or not, rewritten with other line ends and byte order marks per file"),
        Family("encodings", f_encodings, 1000, rule="UTF-16 and UTF-32 files of each byte order in each role"),
        Family("lookalikes", f_lookalikes, 1000, rule="text whose first bytes agree with a byte order mark for a while"),
    ],
}
