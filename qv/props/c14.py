"""C14: snippets hold exactly the code and text that is marked."""
import re
from ..engine import Fail, Discard, Family
from ..docgen import header, body_of
from ..docrun import convert, tree, show_files
from ..xmltree import E, merge, text_of, walk, canon, diff
from .c13 import Lexer, Illegal, unindent, SPACE

ID = r"[A-Za-z_][A-Za-z0-9_]*"
S = r"[ \t\n\v\f\r]*"
B = r"[ \t]*"
def rx(s):
    return re.compile(s, re.S)
CPP = [
    ("start", rx(B + r"(?:\n" + B + r")?//\[" + B + "(" + ID + r")[^\n]*")),
    ("start", rx(B + r"\n" + B + r"/\*\[" + S + "(" + ID + ")" + S + r"\*/" + B + r"(?=\n)")),
    ("start", rx(r"/\*\[" + S + "(" + ID + ")" + S + r"\*/")),
    ("end", rx(B + r"(?:\n" + B + r")?//\][^\n]*")),
    ("end", rx(B + r"\n" + B + r"/\*\]\*/" + B + r"(?=\n)")),
    ("end", rx(r"/\*\]\*/")),
    ("text", rx(S + r"//`([^\n]*)(?:\n|\Z)")),
    ("text", rx(S + r"/\*`(.*?)\*/")),
    ("ignore", rx(B + r"//<-(?:(?!//->).)*//->" + B + r"\n")),
    ("ignore", rx(r"/\*<-\*/.*?/\*->\*/")),
    ("ignore", rx(r"/\*<-.*?->\*/")),
    ("pass", rx(r"//=(?!=)([^\n]*(?:\n|\Z))")),
    ("pass", rx(r"/\*=(?!=)(.*?)\*/")),
]
PYTHON = [
    ("start", rx(B + r"(?:\n" + B + r")?#\[" + B + "(" + ID + r")[^\n]*")),
    ("end", rx(B + r"(?:\n" + B + r")?#\][^\n]*")),
    ("text", rx(S + r"#`([^\n]*)(?:\n|\Z)")),
    ("text", rx(S + r'"""`(.*?)"""')),
    ("pass", rx(r"#=(?!=)([^\n]*(?:\n|\Z))")),
    ("pass", rx(r'"""=(?!=)(.*?)"""')),
    ("ignore", rx(B + r"#<-(?:(?!#->[ \t]*(?:\n|\Z)).)*#->" + B + r"(?:\n|\Z)")),
    ("ignore", rx(r'"""<-""".*?"""->"""')),
    ("ignore", rx(r'"""<-.*?->"""')),
]

def events(source, rules):
    """The file as code, text and marks."""
    out, i, code = [], 0, 0
    while i < len(source):
        for kind, r in rules:
            m = r.match(source, i)
            if m and m.end() > i:
                if code < i:
                    out.append(("code", source[code:i]))
                out.append((kind, m.group(1) if kind in ("start", "text", "pass") else None))
                i = code = m.end()
                break
        else:
            i += 1
    if code < i:
        out.append(("code", source[code:i]))
    return out

def snippets(evs):
    """{name: items}, the passages outside snippets, and errors."""
    stack, done, outside, problems = [], [], [], []
    for kind, v in evs:
        if kind == "start":
            stack.append((v, []))
        elif kind == "end":
            if stack:
                done.append(stack.pop())
            else:
                problems.append("end")
        else:
            item = {"code": ("code", v), "pass": ("code", v), "text": ("text", v), "ignore": None}[kind]
            if not item:
                continue
            for _, items in stack:
                items.append(item)
            if not stack and kind == "text" and v:
                outside.append([item])
    while stack:
        problems.append("unclosed " + stack[-1][0])
        done.append(stack.pop())
    return done, outside, problems

def fenced(code):
    code = re.sub(r"\A([ \t]*\n)*", "", code + "\n")
    core = code.rstrip(SPACE)
    m = re.match(r"[ \t]*\n", code[len(core):])
    return unindent(core + (m.group() if m else ""))

WORDS = re.compile(r"[A-Za-z0-9 \n\t.,]*\Z")

def render(items, mode, env):
    """What the items show: code listings and paragraphs."""
    out = []
    i = 0
    while i < len(items):
        kind = items[i][0]
        run = []
        while i < len(items) and items[i][0] == kind:
            if kind == "text" and not items[i][1]:
                # an empty comment ends the code
                i += 1
                if not run: break
                continue
            run.append(items[i][1])
            i += 1
        if not run:
            continue
        if kind == "code":
            text = "".join(run)
            if re.search(r"/\*<|#<|```", text):
                raise Discard("callouts or fences in code")
            text = fenced(text)
            if text:
                try:
                    out.append(("code", Lexer(text, mode, {}, {"e": ["e"], "[*b]": [E("emphasis", {"role": "bold"}, ["b"])]}).run()))
                except Illegal:
                    raise Discard("escape")
        else:
            text = "\n".join(unindent(t) for t in run)
            text = re.sub(r"\n[ \t]*(\n[ \t]*)+(?=[^ \t\n]|\Z)", lambda m: "\n\n" + re.search(r"[ \t]*\Z", m.group()).group(), "\n" + text)
            for p in re.split(r"\n[ \t]*\n", text):
                if not p.strip():
                    continue
                if p.lstrip("\n")[0] in " \t":
                    raise Discard("indented text")
                if not WORDS.match(re.sub(r"\[\*([a-z0-9 ]*)\]", r"\1", p)):
                    raise Discard("text outside the domain: %r" % p)
                out.append(("text", " ".join(re.sub(r"\[\*([a-z0-9 ]*)\]", r"\1", p).split())))
    return out

def shown(nodes):
    """Listings and paragraphs of the output."""
    out = []
    def go(ns):
        text = ""
        def flush():
            nonlocal text
            if text.strip():
                out.append(("text", " ".join(text.split())))
            text = ""
        for n in ns:
            if isinstance(n, str):
                text += n
            elif n.tag == "programlisting":
                flush()
                out.append(("code", n.kids))
            elif n.tag in ("para", "simpara"):
                flush()
                go(n.kids)
            else:
                text += text_of(n)
        flush()
    go(nodes)
    return out

class Src:
    def __init__(self, src, python):
        self.src, self.py = src, python
        self.stack, self.n, self.names = [], 0, []
    def word(self):
        self.n += 1
        return self.src.pick(["t%d", "w%d x", "[*b%d]"]) % self.n
    def text(self):
        return " ".join(self.word() for _ in self.src.many(1, 3, 1.5))
    def name(self):
        free = [n for n in ["a", "b", "c_1", "Dd", "e_", "f2", "g", "h"] if n not in self.names]
        n = self.src.pick(free) if free and self.src.bool(0.98) else self.src.pick(["a", "b"])
        self.names.append(n)
        return n
    def code(self):
        self.n += 1
        src = self.src
        if self.py:
            return src.pick(["x = %d", "def f%d(y):", "print 'q%d'", "# c%d", "\"s%d\"", "r%d ``e``", "l%d = [1]", "'''m%d\n  n'''", "#! %d", "z%d #", "k%d # [", "# ] %d"]) % self.n
        return src.pick(["int x%d;", "f%d(y);", "\"q%d\";", "// c%d", "/* d%d */", "#include <x%d>", "r%d ``[*b]``;", "a[%d]", "/* p%d\n  q */", "v%d /", "u%d = *p;", "// [%d", "/*%d["]) % self.n
    def ind(self):
        return self.src.pick(["", "", "", "  ", "    ", "\t"])
    def eol(self):
        return self.src.pick(["\n", "\n", "\n", "\n\n", " \n", "\n  \n"])
    def marker(self):
        """One of the marks."""
        src, py = self.src, self.py
        k = src.weighted([(4, "start"), (5 if self.stack else 1, "end"), (4, "text"), (2, "btext"), (2, "ignore"), (2, "iignore"), (2, "pass"), (2, "bpass"), (1, "frag")])
        src.label(k)
        if k == "start":
            n = self.name()
            self.stack.append(n)
            if py:
                return "#[" + src.pick(["", " ", "\t", " \t "]) + n + src.pick(["", "", " rest", "]", " "]), False
            f = src.int(0, 3)
            if f < 2:
                return "//[" + src.pick(["", " ", "\t", "  "]) + n + src.pick(["", "", " rest", "\t", "-"]), False
            return "/*[" + src.pick(["", " ", "\n", "\n  "]) + n + src.pick(["", " ", "\n ", " \t"]) + "*/", True
        if k == "end":
            if not self.stack and src.bool(0.9):
                return "", True
            if self.stack:
                self.stack.pop()
            if py:
                return "#]" + src.pick(["", "", " end"]), False
            return src.pick([("//]", False), ("//]", False), ("//] end", False), ("/*]*/", True)])
        if k == "text":
            return ("#`" if py else "//`") + src.pick(["", " ", " ", "  "]) + (self.text() if src.bool(0.9) else ""), False
        if k == "btext":
            t = src.pick(["", " ", "\n", "\n  ", "\n\n "]) + self.text() + src.pick(["", " ", "\n", "\n  " + self.text(), "\n\n" + self.text() + "\n", "\n\n  " + self.text()])
            if py:
                t = t.replace('"', "")
                return '"""`' + t + '"""', True
            return "/*`" + t + "*/", True
        if k == "ignore":
            body = "\n" + self.ind() + self.code() + "\n" + (self.code() + "\n" if src.bool(0.3) else "") + self.ind()
            if src.bool(0.1):
                body += "#[ no\n" if py else "//[no\n//` no\n"
            if py:
                return "#<-" + body + "#->" + src.pick(["", " "]), False
            return "//<-" + body + "//->" + src.pick(["", " ", "  "]), False
        if k == "iignore":
            body = src.pick(["", " "]) + src.pick(["private:", self.code(), "x\n y"]) + src.pick(["", " "])
            if py:
                return (src.pick(['"""<-"""%s"""->"""', '"""<- %s ->"""']) % body.replace('"', "")), True
            return (src.pick(["/*<-*/%s/*->*/", "/*<- %s ->*/"]) % body), True
        if k == "pass":
            return ("#=" if py else "//=") + src.pick(["", " ", "="] if src.bool(0.2) else [""]) + self.code().split("\n")[0], False
        if k == "bpass":
            c = src.pick(["", "\n"]) + self.code() + src.pick(["", "\n"])
            if py:
                return '"""=' + c.replace('"', "") + '"""', True
            return "/*=" + c.replace("*/", "") + "*/", True
        return src.pick(["#", "# [", "#<", "#-", '"""', "#>"] if py else ["//", "/*[", "// [x", "/*", "*/", "//<", "/*-", "//-", "/*]", "->", "//<-", "/*<-", "/*`"]), True
    def build(self):
        src = self.src
        out = ""
        for _ in src.many(2, 16, 8):
            if src.bool(0.5):
                out += self.ind() + self.code()
                if src.bool(0.3):
                    out += src.pick(["", " "]) + self.marker()[0]
                out += self.eol()
            else:
                m, inline = self.marker()
                out += self.ind() + m
                out += self.eol() if not inline or src.bool(0.6) else src.pick(["", " "])
        while self.stack and src.bool(0.95):
            self.stack.pop()
            out += ("#]" if self.py else src.pick(["//]", "//]", "/*]*/"])) + "\n"
        if src.bool(0.1):
            out = out.rstrip("\n")
        return out

def f_snippets(src, env):
    ver = src.pick([107, 107, 106, 106, 105, 104])
    py = src.bool(0.4)
    source = Src(src, py).build()
    done, outside, problems = snippets(events(source, PYTHON if py else CPP))
    names = [n for n, _ in done]
    mode = "python" if py else "c++"
    include = ver >= 106 and src.bool(0.4)
    illegal = bool(problems) and ver >= 106
    if len(set(names)) < len(names):
        if src.bool(0.7): raise Discard("a name is used twice")
        illegal = True
    name = "x" + src.pick([".py", ".jam"] if py else [".cpp", ".h", ".c", ".hpp"])
    doc = header(ver) + "sep\n\n"
    want = [("text", "sep")]
    if include:
        doc += "[include %s]\n\nsep\n\n" % name
        for o in outside:
            want += render(o, mode, env)
        want.append(("text", "sep"))
    else:
        doc += "[import %s]\n\n" % name
        for n in src.shuffled(list(dict.fromkeys(names))):
            doc += "[%s]\n\nsep\n\n" % n
            if not illegal:
                want += render(dict(done)[n], mode, env)
            want.append(("text", "sep"))
    src.key = doc + source
    src.sample = show_files({"m.qbk": doc, name: source})
    src.nontrivial = len(want) > 2
    if illegal: src.label("errors")
    if include: src.label("included")
    if any(len(items) > 2 for _, items in done): src.label("several pieces in a snippet")
    if len(names) != len([1 for k in done]) : pass
    if any(set(id(x) for x in a) & set(id(x) for x in b) for i, (_, a) in enumerate(done) for _, b in done[:i]): src.label("nested snippets")
    res = convert(env, doc, files={name: source}, ok=not illegal)
    if illegal:
        if not problems:
            return
        n = res.err.decode("utf-8", "replace")
        e = n.count("Mismatched end snippet"), n.count("Unclosed snippet")
        w = problems.count("end"), len(problems) - problems.count("end")
        if e != w:
            raise Fail("%s mismatched and unclosed snippets reported, not %s\n%s\n%s" % (e, w, src.sample, res.describe()))
        return
    if problems and not re.search(rb"Mismatched end snippet|Unclosed snippet", res.err):
        raise Fail("no warning about snippet marks\n%s\n%s" % (src.sample, res.describe()))
    if not problems and re.search(rb"Mismatched end snippet|Unclosed snippet", res.err):
        raise Fail("a warning about snippet marks that are right\n%s\n%s" % (src.sample, res.describe()))
    root = tree(doc, res)
    got = shown(body_of(root))
    f = lambda l: [canon(E("code", {}, v), False, False) if k == "code" else v for k, v in l]
    if len(f(got)) != len(f(want)):
        raise Fail("%d pieces instead of %d: %s\ninstead of %s\n%s\n%s" % (len(got), len(want), brief(got), brief(want), src.sample, res.files["o.xml"].decode("utf-8", "replace")))
    for a, b in zip(f(want), f(got)):
        if isinstance(a, str) != isinstance(b, str):
            d = "%s instead of %s" % (brief([("", b)]), brief([("", a)]))
        elif isinstance(a, str):
            d = a != b and "%r instead of %r" % (b, a)
        else:
            d = diff(a, b)
            if not d and text_of(a) != text_of(b):
                d = "%r instead of %r" % (text_of(b), text_of(a))
        if d:
            raise Fail("%s\n%s\n%s" % (d, src.sample, res.files["o.xml"].decode("utf-8", "replace")))

def brief(l):
    return [v if isinstance(v, str) else [text_of(E("c", {}, v if isinstance(v, list) else [v]))] for k, v in l]

PROPERTY = {
    "id": "C14",
    "rule": "the file shows at least one listing or passage",
    "families": [
        Family("snippets", f_snippets, 12000),
    ],
}
