"""C02: exit status, diagnostics and output files always agree."""
import os, re
from ..engine import Fail, Discard, Family
from ..docgen import Gen, VERSIONS, header
from ..docrun import show_files
from ..soup import document
from ..xmltree import parse_xml, NotWellFormed

ERR = re.compile(r"^(?:Error: |.*?(?::\d+)?: error: |.*?\(\d+\): error: )", re.M)
COUNT = re.compile(r"^Error: Error count: (\d+)\.$", re.M)
SENTINEL = b"the previous output\n"

def dec(x):
    return x if isinstance(x, str) else x.decode("utf-8", "replace")

def setup(src, fmt):
    """Options and the names of the output they lead to."""
    if fmt == "none":
        return ["--no-output"], None
    args, out = [], None
    if fmt == "html":
        args += ["--output-format", "html"]
        if src.bool(0.6):
            args += ["--output-dir", "pages"]
            out = "pages/index.html"
        else:
            out = "html/index.html"
    else:
        if fmt == "onehtml" or src.bool(0.3):
            args += ["--output-format", fmt]
        ext = ".html" if fmt == "onehtml" else ".xml"
        if src.bool(0.7):
            args += ["--output-file", "out" + ext]
            out = "out" + ext
        else:
            out = "m" + ext
    return args, out

def errors_in(res):
    return [l for l in dec(res.err).split("\n") if ERR.match(l)]

def judge(files, args, res, out, expect=False, known_status=None):
    where = "%s\n%s\n%s" % (args, show_files(files), res.describe())
    if res.kind != "exit" or res.code not in (0, 1):
        raise Fail("the run failed: " + where)
    errs = errors_in(res)
    if expect:
        real = [e for e in errs if "No errors detected for --expect-errors" not in e]
        if (res.code == 0) != bool(real) or (not real) != (len(real) != len(errs)):
            raise Fail("status and diagnostics disagree with --expect-errors: " + where)
        failed = bool(real)
    else:
        failed = res.code == 1
        if failed and not errs:
            raise Fail("status 1 without an error diagnostic: " + where)
        if not failed and errs:
            raise Fail("status 0 with an error diagnostic: " + where)
    if known_status is not None and failed != known_status:
        raise Fail("%s, but status %d: %s" % ("the document has an error" if known_status else "the document is correct", res.code, where))
    # the number of errors
    m = COUNT.findall(dec(res.err))
    if m:
        counted = [e for e in errs if not COUNT.match(e)]
        warned = len(re.findall(r"warning: Template Redefinition", dec(res.err)))
        if int(m[0]) < len([e for e in counted if "Post Processing" not in e]):
            raise Fail("%s errors are counted but %d reported: %s" % (m[0], len(counted), where))
        if int(m[0]) > len(counted) + warned:
            raise Fail("%s errors are counted and %d reported: %s" % (m[0], len(counted) + warned, where))
    inputs = set(files)
    made = {k: v for k, v in res.files.items() if k not in inputs}
    changed = [k for k in files if k in res.files]
    if res.missing:
        raise Fail("%s vanished: %s" % (res.missing, where))
    if any(k != out and not k.endswith(".html") for k in changed):
        raise Fail("%s was changed: %s" % (changed, where))
    pages = [k for k in list(made) + changed if k.endswith((".html", ".xml"))]
    if failed:
        only_print = out and out.endswith(".xml") and all("Post Processing Failed" in e for e in errs)
        if pages and not only_print:
            raise Fail("failed, but %s was written: %s" % (pages, where))
    elif out is None:
        if pages:
            raise Fail("%s was written without being asked for: %s" % (pages, where))
    else:
        if out not in res.files:
            raise Fail("status 0, but %s was not written: %s" % (out, where))
        if out.endswith(".html"):
            for k in pages:
                t = dec(res.files[k]).rstrip()
                if not t.endswith("</html>") or not t.startswith("<!DOCTYPE html>"):
                    raise Fail("%s is not complete: %s\n%s" % (k, where, t[-500:]))
        else:
            t = dec(res.files[out]).rstrip()
            root = re.search(r"<(article|library|book|chapter|part|appendix|preface|qandadiv|qandaset|reference|set)[\s>]", t)
            if not root or not t.endswith("</%s>" % root.group(1)):
                raise Fail("%s is not complete: %s\n%s" % (out, where, t[-500:]))
    return failed

def enc(s):
    return s if isinstance(s, bytes) else s.encode("utf-8", "surrogateescape")

def with_more(args, out):
    """Dependency output alone means no other output."""
    if ("--output-deps" in args or "--output-checked-locations" in args) and not any(a in args for a in ("--output-format", "--output-file", "--output-dir")):
        return args, None
    return args, out

MORE = [[], [], ["--strict"], ["--ms-errors"], ["--no-pretty-print"], ["--output-deps", "deps.txt"], ["--output-checked-locations", "locs.txt"], ["-D", "M2=x"], ["-D", "__m1__=[* a"], ["--expect-errors"],
        ["-D", "bad"], ["-D", "=["], ["--debug"], ["--expect-errors", "--strict"]]

def previous(src, files, out):
    if out and src.bool(0.5):
        files[out] = SENTINEL

def f_documents(src, env):
    doc, files, s = document(src, errors=src.bool(0.75), raw=src.bool(0.3))
    files = dict(files)
    files["m.qbk"] = doc
    fmt = src.weighted([(4, "boostbook"), (2, "onehtml"), (2, "html"), (1, "none")])
    args, out = setup(src, fmt)
    extra = src.pick(MORE)
    args, out = with_more(["m.qbk"] + args + extra, out)
    previous(src, files, out)
    src.key = repr(sorted(files.items())) + repr(args)
    src.sample = {"files": {k: dec(v)[:300] for k, v in files.items() if v is not None}, "args": args}
    res = env.run(files, args)
    if res.kind == "timeout":
        raise Discard("takes long")
    if res.kind != "exit":
        raise Discard("crashes (see C01)")
    failed = judge(files, args, res, out, "--expect-errors" in extra)
    src.nontrivial = True
    src.label(("fails " if failed else "succeeds ") + fmt)

# Documented errors: (first version, last version, text, files, options, may be nested)
ERRORS = [
    (101, 107, "[include missing.qbk]", {}, [], True), (101, 107, "[import missing.qbk]", {}, [], True), (101, 107, "[import missing.cpp]", {}, [], True),
    (101, 107, "[endsect]", {}, [], False),
    (101, 107, "[section:q1 A]\n\n[endsect:q2]", {}, [], True), (101, 107, "[section A]\n\n[endsect:q2]", {}, [], False),
    (101, 107, "[template tq[x] [x]]\n\n[tq]", {}, [], False), (101, 107, "[template tq[x y] [x][y]]\n\nz [tq a..b..c]", {}, [], False), (101, 107, "[template tq z]\n\nz [tq a]", {}, [], False),
    (101, 107, "[template dq a]\n\n[template dq b]", {}, [], False),
    (101, 107, "[template lq [lq]]\n\n[lq]", {}, [], False), (105, 107, "[template lq [lr]]\n\n[template lr [lq]]\n\na [lq]", {}, [], False),
    (101, 107, "[section A]", {}, ["--strict"], False),
    (106, 107, "[template bq\n[section X]\n]\n\n[bq]", {}, [], False),
    (106, 107, "[$i.png [1a v]]", {}, [], True), (106, 107, "a \\U00110000", {}, [], True), (106, 107, "a \\ud800 b", {}, [], True), (106, 107, "a \\u0001 b", {}, [], True),
    (106, 106, "[xinclude a\\\\b.xml]", {}, [], True), (106, 107, "[include a\\\\b.qbk]", {}, [], True),
    (106, 107, "z [* a", {}, [], False), (106, 107, "[table [[a]", {}, [], False), (106, 107, "[section A\n\nz", {}, [], False), (106, 107, "[note a\n\nb", {}, [], False),
    (106, 107, "[import s.cpp]", {"s.cpp": "int a;\n//]\n"}, [], True), (106, 107, "[import s.cpp]", {"s.cpp": "//[x\nint a;\n"}, [], True), (106, 107, "[import s.py]", {"s.py": "#]\n"}, [], True),
    # what a callout or a marked passage holds isn't complete
    (106, 107, "[import s.cpp]\n\n[sn]", {"s.cpp": "//[sn\nint a; /*< ] a >*/\n//]\n"}, [], False),
    (106, 107, "[import s.cpp]\n\n[sn]", {"s.cpp": "//[sn\n//` ] a\nint a;\n//]\n"}, [], False),
    (106, 107, "[import s.cpp]\n\n[sn]", {"s.cpp": "//[sn\nint a; /*< a ] b >*/\n//]\n"}, [], False),
    (106, 107, "[import s.cpp]\n\n[sn]", {"s.cpp": "//[sn\n//` a ] b\nint a;\n//]\n"}, [], False),
    (106, 107, "[import s.cpp]\n\n[sn]", {"s.cpp": "//[sn\nint a; /*< a [ b >*/\n//]\n"}, [], False),
    (106, 107, "[import s.cpp]\n\n[sn]", {"s.cpp": "//[sn\n//` a [ b\nint a;\n//]\n"}, [], False),
    (106, 107, "[import s.cpp]\n\n[sn]", {"s.cpp": "//[sn\nint a; /*< [*a >*/\n//]\n"}, [], False),
    (106, 107, "[import s.cpp]\n\n[sn]", {"s.cpp": "//[sn\n//` [*a\nint a;\n//]\n"}, [], False),
    (101, 107, "[import s.cpp]\n\n[sn]", {"s.cpp": "//[sn\nint a; /*<< ''' x >>*/\n//]\n"}, [], False),
    (101, 107, "[import s.py]\n\n[sn]", {"s.py": "#[sn\n#` ''' x\nx = 1\n#]\n"}, [], False),
    (101, 107, "[import s.cpp]\n\n[sn]", {"s.cpp": "//[sn\nint a; /*<< ``` x >>*/\n//]\n"}, [], False),
    (101, 107, "[import s.py]\n\n[sn]", {"s.py": "#[sn\n#` ``` x\nx = 1\n#]\n"}, [], False),
    (101, 107, "[import s.cpp]\n\n[sn]", {"s.cpp": "//[sn\nint a; /*<< [section x >>*/\n//]\n"}, [], False),
    (101, 107, "[import s.py]\n\n[sn]", {"s.py": "#[sn\n#` [section x\nx = 1\n#]\n"}, [], False),
    (101, 107, "[import s.cpp]\n\n[sn]", {"s.cpp": "//[sn\nint a; /*<< [endsect] >>*/\n//]\n"}, [], False),
    (101, 107, "[import s.py]\n\n[sn]", {"s.py": "#[sn\n#` [endsect]\nx = 1\n#]\n"}, [], False),
    (106, 107, "[include b.qbk]", {"b.qbk": "[quickbook 1.6]\ntext [* a\n"}, [], True), (101, 107, "[include b.qbk]", {"b.qbk": "[endsect]\n"}, [], True), (101, 107, "[include b.qbk]", {"b.qbk": "[include missing.qbk]\n"}, [], True),
    (106, 107, "[import b.qbk]", {"b.qbk": "[quickbook 1.6]\n[template x a]\n[template x b]\n"}, [], True), (101, 107, "[include b.qbk]", {"b.qbk": "[quickbook 2.9]\ntext\n"}, [], True),
    (107, 107, "[#a$b]", {}, [], True), (107, 107, "[section:a$b T]\n[endsect]", {}, [], False), (107, 107, "[xinclude *.xml]", {}, [], True),
    (107, 107, "[template bt\nblock\n]\n\n[link [bt] x]", {}, [], False), (107, 107, "[note a\n\n[section X]\n\n]", {}, [], False),
    (106, 106, "* a\n\n  b", {}, [], False), (101, 107, "* a\n# b", {}, [], False),
    (106, 107, "[link a\\nb x]", {}, [], True, "Newlines invalid here."), (106, 107, "[link a\\qb x]", {}, [], True, "Invalid escape."), (106, 107, "[@a\'\'\'b\'\'\' x]", {}, [], True, "Boostbook escape invalid here."),
    (106, 107, "[@a\'\'\'b x]", {}, [], False, "Unclosed boostbook escape."), (107, 107, "[role [* a] x]", {}, [], True, "Elements not allowed in attribute values."),
    (106, 106, "[link [zz] x]", {}, [], True, "Open bracket in link value."), (107, 107, "[link [zz] x]", {}, [], True, "Unmatched template in attribute value."), (107, 107, "[$a[zz].png]", {}, [], True, "Syntax Error"),
    (107, 107, "[template pq a\n\nb]\n\nz [pq]", {}, [], False, "Paragraph in phrase template."), (107, 107, "[template pq[] a\n\nb]\n\nz [* [pq]]", {}, [], False, "Paragraph in phrase template."),
    (106, 107, "[template %q v]\n\nz [`%q]", {}, [], False, "punctuation names can\'t be escaped"), (101, 107, "[template tq v]\n\nz [`tq a]", {}, [], False, "Arguments for escaped template."),
    (101, 107, "z ``a", {}, [], False, "Unfinished code block"), (101, 107, "z ```a\n", {}, [], False, "Unfinished code block"), (101, 107, "z \'\'\'<b/>", {}, [], False, "Unclosed boostbook escape."),
    (107, 107, "[section:a:b T]\n[endsect]", {}, [], False, "Invalid id: a:b"), (107, 107, "[heading:a:b T]", {}, [], True, "Invalid id: a:b"), (107, 107, "[table:a:b t [[x]]]", {}, [], True, "Invalid id: a:b"),
    (107, 107, "[include:a:b e.qbk]", {"e.qbk": "text\n"}, [], False, "Syntax Error"), (107, 107, "[link a$b x]", {}, [], True, "Invalid id: a$b"),
    (101, 106, "[#]", {}, [], False, "Empty attribute value."), (101, 106, "z [@] y", {}, [], False, "Empty attribute value."), (101, 106, "z [link] y", {}, [], False, "Empty attribute value."),
    (107, 107, "[#a b]", {}, [], True, "Syntax Error"), (107, 107, "[#]", {}, [], True, "Syntax Error"), (107, 107, "z [@] y", {}, [], True, "Syntax Error"), (107, 107, "z [$] y", {}, [], True, "Syntax Error"),
    (106, 107, "z ] y", {}, [], False, "Mismatched close bracket"), (106, 107, "z [y", {}, [], False, "Missing close bracket"), (106, 107, "[note z [y]", {}, [], False, None),
    (101, 107, "z ] y", {}, ["--strict"], False, "ismatched close bracket"), (101, 107, "z [y", {}, ["--strict"], False, "bracket"), (101, 107, "z [zz] y", {}, ["--strict"], True, "(strict mode)"),
    (101, 105, "[template %q v]\n\nz [`%q]", {}, ["--strict"], False, "escaped (strict mode)"),
    (101, 107, "[import s.cpp]\n\n[sn a]", {"s.cpp": "//[sn\nint a;\n//]\n"}, [], False, "Arguments for code snippet."), (101, 107, "[template tq[x x] a]\n\nz [tq a..b]", {}, [], False, "Duplicate Symbol Found"),
    (101, 106, "[include]", {}, [], False, "Empty path argument"), (101, 106, "[import ]", {}, [], False, "Empty path argument"), (101, 106, "[xinclude]", {}, [], False, "Empty path argument"), (107, 107, "[include]", {}, [], True, "Syntax Error"),
    (107, 107, "[xinclude **.xml]", {}, [], True, "\'**\' not supported"), (107, 107, "[include a**.qbk]", {}, [], True, "\'**\' not supported"), (107, 107, "[import a*\u00e9.qbk]", {}, [], True, "globs are ascii only"),
    (101, 107, "[include a**.qbk]", {}, [], True, "a**.qbk"),
    (101, 107, "[template]", {}, [], False, "Syntax Error"), (101, 107, "[def x", {}, [], False, "Syntax Error"), (101, 107, "[template a[b c]", {}, [], False, "Syntax Error"), (106, 107, "[* x\n\ny]", {}, [], False, None),
    (106, 107, "[ordered_list [a] b]", {}, [], True, "Syntax Error"), (107, 107, "[c++ x]", {}, [], True, "Syntax Error"), (107, 107, "[?]", {}, [], True, "Syntax Error"), (107, 107, "[$a.png [b c] d]", {}, [], True, "Syntax Error"),
    (101, 107, "[endsect x]", {}, [], False, "Syntax Error"), (101, 107, "[endsect:]", {}, [], False, "Mismatched [endsect]"), (101, 107, "[section:q1 A]\n\n[section B]\n\n[endsect:q1]\n\n[endsect]", {}, [], False, "no explicit id"),
    (101, 107, "[import s.cpp]", {"s.cpp": "//[x\nint a;\n//]\n//[x\nint b;\n//]\n"}, [], False, "Template Redefinition: x"), (106, 107, "[import b.qbk]", {"b.qbk": "[quickbook 1.6]\n[import s.cpp]\n", "s.cpp": "//[x\n/*`\n* a\n*/\n"}, [], False, "Unclosed snippet"),
    (101, 107, "", {}, ["-D", "a b]"], False), (101, 107, "", {}, ["-D", "=x"], False),
    (101, 107, "[template inf[] [inf]]\n\n[inf]", {}, [], False, "Infinite loop detected"), (101, 107, "[include m.qbk]", {}, [], False, "Infinite loop detected"),
    (101, 107, "[template inf[x] [inf [x]]]\n\n[inf a]", {}, [], False, "Infinite loop detected"), (106, 107, "[include b.qbk]", {"b.qbk": "[include c.qbk]\n", "c.qbk": "[include b.qbk]\n"}, [], False, "Infinite loop detected"),
    (101, 107, "[template ms[]\n\n[section X]\n\nx\n]\n\n[ms]", {}, [], False, "Mismatched sections in template ms"), (101, 107, "[template es[]\n\n[endsect]\n]\n\n[section A]\n\n[es]\n\n[endsect]", {}, [], False, "Mismatched [endsect]"),
    (101, 107, "[include dd.qbk]", {"dd.qbk": None}, [], False, "Loading file dd.qbk"), (101, 107, "[import dd.qbk]", {"dd.qbk": None}, [], False, "Loading file dd.qbk"), (101, 106, "[include ]", {}, [], False, "Empty path argument"),
    (107, 107, "[template emp[]]\n\n[include [emp]]", {}, [], False, "Empty path argument"), (107, 107, "[template emp[]]\n\n[xinclude [emp]]", {}, [], False, "Empty path argument"),
    (107, 107, "[template bl[]\n\nx\n]\n\na [@[bl] x]", {}, [], False, "Only phrase templates"),
    (101, 107, "", {}, ["-D", "a=x [zz] y", "--strict"], False, "Mismatched open bracket (strict mode)"), (101, 107, "", {}, ["--strict", "-D", "a=x ] y"], False, "Mismatched close bracket (strict mode)"),
]

def f_errors(src, env):
    """One documented error in an otherwise correct document."""
    err = src.pick(ERRORS)
    ver = src.pick([v for v in VERSIONS if err[0] <= v <= err[1]])
    g = Gen(src, ver, {"footnote": 1, "link": 1})
    text = err[2]
    files = dict(err[3])
    where = "top"
    if err[5]:
        where = src.weighted([(3, "top"), (2, "section"), (2, "note"), (1, "include"), (1, "template"), (1, "cond")])
    inline = not text.startswith(("[include", "[import", "[section", "[xinclude", "[ordered"))
    if where in ("note", "template") and not inline and ver < 107:
        where = "top"
    if where == "section":
        text = "[section S]\n\n%s\n\n[endsect]" % text
    elif where == "note":
        text = "[note x\n\n%s\n\ny]" % text
    elif where == "include":
        files["w.qbk"] = "%s\n\n%s\n" % (src.pick(["", "[quickbook 1.%d]\n" % (ver - 100)]) if ver > 105 else "[quickbook 1.%d]\n" % (ver - 100), text)
        text = "[include w.qbk]"
    elif where == "template":
        text = "[template wq\n%s\n]\n\n[wq]" % text
        if "\n\n" in text or ver < 106:
            text = err[2]
    elif where == "cond":
        text = "[def __q__ x]\n\n[? __q__ %s]" % text if inline and ver >= 106 else text
    message = err[6] if len(err) > 6 else None
    one, _ = g.blocks(1, 0, 3, 1.5)
    two, _ = g.blocks(1, 0, 3, 1.5)
    if message and re.search("Unclosed|Unfinished|bracket", message) or text.count("[") != text.count("]"):
        two = ""        # it could close it
    doc = header(ver) + one + "\n\nsep\n\n" + text + "\n\nsep\n\n" + two + "\n"
    files["m.qbk"] = doc
    fmt = src.weighted([(4, "boostbook"), (1, "onehtml"), (1, "html"), (1, "none")])
    args, out = setup(src, fmt)
    args = ["m.qbk"] + args + err[4]
    if src.bool(0.2): args += ["--ms-errors"]
    previous(src, files, out)
    expect = src.bool(0.15)
    if expect: args += ["--expect-errors"]
    src.key = repr(sorted(files.items())) + repr(args)
    src.sample = {"error": text, "args": args}
    src.label(where)
    src.nontrivial = True
    res = env.run(files, args)
    if res.kind == "timeout":
        raise Discard("takes long")
    judge(files, args, res, out, expect, True)
    if message and message not in dec(res.err):
        raise Fail("no message %r: %s\n%s\n%s" % (message, args, show_files(files), res.describe()))

def f_correct(src, env):
    """Correct documents."""
    ver = src.pick(VERSIONS)
    # (brackets in text are errors in strict mode)
    strict = src.bool(0.2)
    g = Gen(src, ver, {"footnote": 1, "link": 1, "brackets": 0} if strict else {"footnote": 1, "link": 1})
    body, _ = g.blocks(2, 1, 5, 2.5)
    files = {"m.qbk": header(ver) + body + "\n"}
    fmt = src.weighted([(4, "boostbook"), (1, "onehtml"), (1, "html"), (1, "none")])
    args, out = setup(src, fmt)
    args = ["m.qbk"] + args + (["--strict"] if strict else [])
    for a in (["--ms-errors"], ["--no-pretty-print"], ["--output-deps", "deps.txt"], ["-D", "M2=x"], ["-D", "__m"], ["--indent", "4"]):
        if src.bool(0.15): args += a
    args, out = with_more(args, out)
    previous(src, files, out)
    expect = src.bool(0.1)
    if expect: args += ["--expect-errors"]
    src.key = repr(sorted(files.items())) + repr(args)
    src.sample = {"doc": body[:400], "args": args}
    src.nontrivial = len(body) > 20
    res = env.run(files, args)
    if res.kind == "timeout":
        raise Discard("takes long")
    judge(files, args, res, out, expect, False)

# Errors in the document information: what is in it, or the whole start
HEADERS = [
    ("", "No doc_info block"), ("just text\n", "No doc_info block"), ("[quickbook 1.7]\n", "No doc_info block"), ("[articl T\n[quickbook 1.7]\n]\n", "No doc_info block"),
    ("[article T\n[quickbook 1.7]\n", "Syntax Error"), ("[article T\n[quickbook 1.%s]\n]\n", "Unknown version"), ("[article T\n[quickbook 2.0]\n]\n", "Unknown version: 2.0"),
    ("[quickbook 1.8]\n[article T]\n", "Unknown version: 1.8"), ("[quickbook 0.9]\n[article T]\n", "Unknown version: 0.9"),
    ("[xmlbase nodir]", "isn't a directory"), ("[xmlbase m.qbk]", "isn't a directory"), ("[copyright 2005-2001 X]", "Invalid year range: 2005-2001"), ("[copyright 1999, 2005-2001 X]", "Invalid year range"),
    ("[copyright 1999 A, 2005-2001 X]", "Invalid year range"), ("[foo x]", "Unrecognized document attribute: 'foo'"), ("[include a]", "Unrecognized document attribute: 'include'"), ("[authors x]", "Syntax Error"),
    ("[copyright X]", "Syntax Error"), ("[compatibility-mode 1.9]", "Unknown version: 1.9"), ("[source-mode zz]", "Syntax Error"), ("[version '''a]", "Unclosed boostbook escape"),
    ("[version \\u0001]", "Invalid unicode character"), ("[purpose \\U00110000]", "Invalid unicode character"),
]

def f_headers(src, env):
    """Errors in the document information."""
    text, message = src.pick(HEADERS)
    ver = src.pick([107, 106])
    good = ["[id x]", "[version 1]", "[lang en]", "[authors [a, b]]", "[category c]", "[copyright 2001 Y]", "[source-mode c++]"]
    if text.startswith("[") and text.count("\n") == 0:
        info = src.shuffled(good)[:src.int(0, 3)]
        if ver == 107 and message.startswith("Inv") and "uni" in message and False: info = []
        info.insert(src.int(0, len(info)), text)
        doc = "[%s T\n[quickbook 1.%d]\n%s\n]\n" % (src.pick(["article", "library", "book"]), ver - 100, src.pick(["\n", " ", "\n\n"]).join(info))
    else:
        doc = text % src.pick(["8", "9", "10", "70"]) if "%s" in text else text
    doc += "\nsome text\n"
    files = {"m.qbk": doc}
    fmt = src.weighted([(4, "boostbook"), (1, "onehtml"), (1, "html"), (1, "none")])
    args, out = setup(src, fmt)
    args = ["m.qbk"] + args
    if src.bool(0.2): args += ["--ms-errors"]
    if src.bool(0.2): args += ["--strict"]
    previous(src, files, out)
    src.key = repr(sorted(files.items())) + repr(args)
    src.sample = {"doc": doc, "args": args}
    src.nontrivial = True
    src.label(message)
    res = env.run(files, args)
    if res.kind == "timeout":
        raise Discard("takes long")
    judge(files, args, res, out, False, True)
    if message not in dec(res.err):
        raise Fail("no message %r: %s\n%s\n%s" % (message, args, show_files(files), res.describe()))

# name, files, args, status, output that must be untouched
def f_options(src, env):
    """Wrong options and files that cannot be read or written."""
    good = header(107) + "some text\n\n[section A]\n\nx\n\n[endsect]\n" + "word " * src.pick([0, 10, 3000]) + "\n"
    files = {"m.qbk": good, "dir": None, "dir/keep.txt": "k\n", "plain": "p\n"}
    cases = [
        ("bad format", ["--output-format", "pdf"]), ("bad format 2", ["--output-format", "pdf", "--output-file", "out.xml"]), ("out for none", ["--no-output", "--output-file", "out.xml"]),
        ("dir for none", ["--no-output", "--output-dir", "pages"]), ("file for chunked", ["--output-format", "html", "--output-file", "out.html"]), ("dir for file", ["--output-dir", "pages"]),
        ("dir for onehtml", ["--output-format", "onehtml", "--output-dir", "pages"]), ("no parent", ["--output-file", "nowhere/out.xml"]), ("no parent html", ["--output-format", "html", "--output-dir", "nowhere/pages"]),
        ("no parent onehtml", ["--output-format", "onehtml", "--output-file", "nowhere/o.html"]), ("xinclude base", ["--output-file", "out.xml", "--xinclude-base", "nowhere"]),
        ("deps flag", ["--output-deps", "deps.txt", "--output-deps-format", "checked,odd"]), ("deps dir", ["--output-file", "out.xml", "--output-deps", "nowhere/deps.txt"]),
        ("deps is dir", ["--output-file", "out.xml", "--output-deps", "dir"]), ("locations dir", ["--output-file", "out.xml", "--output-checked-locations", "nowhere/l.txt"]),
        ("deps full", ["--output-file", "out.xml", "--output-deps", "/dev/full"]), ("out is dir", ["--output-file", "dir"]), ("out is dir html", ["--output-format", "onehtml", "--output-file", "dir"]),
        ("full", ["--output-file", "/dev/full"]), ("full np", ["--output-file", "/dev/full", "--no-pretty-print"]), ("full html", ["--output-format", "onehtml", "--output-file", "/dev/full"]),
        ("locations full", ["--output-file", "out.xml", "--output-checked-locations", "/dev/full"]),
        ("pages is file", ["--output-format", "html", "--output-dir", "plain"]), ("page is a directory", ["--output-format", "html", "--output-dir", "pages"]), ("page path is a file", ["--output-format", "html", "--output-dir", "pages2"]), ("unknown option", ["--unknown-option"]), ("missing value", ["--output-file"]), ("indent not a number", ["--indent", "x"]),
        ("no input", None), ("missing input", "nofile.qbk"), ("input is dir", "dir"), ("input in file", "plain/x.qbk"),
    ]
    name, args = src.pick(cases)
    inp = "m.qbk"
    if name.startswith("page "):
        files["m.qbk"] = "[book T\n[quickbook 1.7]\n[id t]\n]\n\nsome text\n\n[include c1.qbk]\n[include c2.qbk]\n"
        files["c1.qbk"] = "[chapter A\n[quickbook 1.7]\n[id a]\n]\n\nx\n"
        files["c2.qbk"] = "[chapter B\n[quickbook 1.7]\n[id x.b]\n]\n\nx\n"
        files[{"page is": "pages/%s.html/keep" % src.pick(["index", "a", "x/b"]), "page pa": "pages2/x"}[name[:7]]] = "k\n"
    if args is None:
        full = src.pick([[], ["--output-file", "out.xml"], ["--strict"]])
    elif isinstance(args, str):
        inp = args
        full = [args] + src.pick([[], ["--output-file", "out.xml"], ["--output-format", "onehtml", "--output-file", "out.html"], ["--output-format", "html", "--output-dir", "pages"], ["--no-output"]])
    else:
        full = args + ["m.qbk"] if src.bool(0.3) and args[-1] != "--output-file" else ["m.qbk"] + args
        for a in (["--strict"], ["--ms-errors"], ["-D", "x=y"], ["--debug"], ["--no-self-linked-headers"]):
            if src.bool(0.2): full = full[:1] + a + full[1:] if full[0] == "m.qbk" else a + full
    for out in ("out.xml", "out.html", "m.xml", "m.html"):
        if src.bool(0.4):
            files[out] = SENTINEL
    src.key = name + repr(full) + repr(sorted(files))
    src.sample = {"case": name, "args": full}
    src.label(name)
    src.nontrivial = True
    res = env.run({k: v for k, v in files.items() if v is not None}, full)
    where = "%s: %s\n%s" % (name, full, res.describe())
    if res.kind != "exit" or res.code != 1:
        raise Fail("expected status 1: " + where)
    if not errors_in(res):
        raise Fail("no diagnostic: " + where)
    for k, v in files.items():
        if k in res.files or k in res.missing:
            raise Fail("%s was changed: %s" % (k, where))
    made = [k for k in res.files if k not in files and k.endswith((".html", ".xml"))]
    if made and not name.startswith("page "):
        raise Fail("%s was written: %s" % (made, where))

PROPERTY = {
    "id": "C02",
    "rule": "the run reached a decision about a document with at least one construct or about wrong options",
    "families": [
        Family("documents", f_documents, 8000, rule="documents of every construct, right or wrong, in every output format and option set, over absent or earlier output"),
        Family("errors", f_errors, 8000, rule="one documented error placed at top level, in a section, a block, a template, a conditional or another file of a correct document"),
        Family("correct", f_correct, 2400, rule="correct documents in every output format"),
        Family("headers", f_headers, 600, rule="one error in the document information"),
        Family("options", f_options, 1000, rule="contradictory or unknown options, missing files, and outputs that cannot be opened or written"),
    ],
}
