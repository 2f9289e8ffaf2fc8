"""C13: syntax highlighting keeps the code, gives every token the role of its
lexical class, and uses the source mode in force."""
import re
from ..engine import Fail, Discard, Family
from ..docgen import header, body_of, VERSIONS
from ..docrun import convert, tree
from ..xmltree import E, merge, text_of, walk, canon, diff

CPP = set("""alignas alignof and_eq and asm auto bitand bitor bool break case catch char char16_t char32_t class compl const const_cast constexpr
continue decltype default delete do double dynamic_cast else enum explicit export extern false float for friend goto if inline int long mutable
namespace new noexcept not_eq not nullptr operator or_eq or private protected public register reinterpret_cast return short signed sizeof static
static_assert static_cast struct switch template this thread_local throw true try typedef typeid typename union unsigned using virtual void volatile
wchar_t while xor_eq xor""".split())
PYTHON = set("""and del for is raise assert elif from lambda return break else global not try class except if or while continue exec import pass
yield def finally in print as None""".split())
SPACE = " \t\n\v\f\r"
IDENT = re.compile(r"[A-Za-z_][A-Za-z0-9_]*")
CPP_SPECIAL = re.compile(r"[~!%^&*()+={\[}\]:;,<.>?/|\\#\-]+")
PY_SPECIAL = re.compile(r"[~!%^&*()+={\[}\]:;,<.>/|\\\-]+")
CPP_STRING = re.compile(r'"(?:\\.|[^"\\])*"', re.S)
CPP_CHAR = re.compile(r"'(?:\\.|[^'\\])*'", re.S)
PY_STRING = re.compile(r"""'''(?:\\.|(?!''')[^\\])*'''|\"""(?:\\.|(?!\""")[^\\])*\"""|'(?:\\.|[^'\\])*'|"(?:\\.|[^"\\])*\"""", re.S)
PREPRO = re.compile(r"#[ \t\n\v\f\r]*[A-Za-z_][A-Za-z0-9_]*")

class Illegal(Exception):
    pass

class Lexer:
    """An independent tokeniser."""
    def __init__(self, text, mode, macros, escapes):
        self.s, self.mode, self.macros, self.escapes = text, mode, macros, escapes
        self.out, self.errors = [], 0
        self.roles = {}

    def span(self, role, kids):
        self.roles[role] = self.roles.get(role, 0) + 1
        if role == "error":
            self.errors += 1
        self.out.append(E("phrase", {"role": role}, kids))

    def macro(self, i):
        """The longest name that starts here decides."""
        best = ""
        for m in self.macros:
            if self.s.startswith(m, i) and len(m) > len(best):
                best = m
        if best:
            n = self.s[i + len(best):i + len(best) + 1]
            if not (n and n.isascii() and (n.isalpha() or n == "_")):
                return best
        return ""

    def escape(self, i):
        e = self.s.find("``", i + 2)
        if e <= i + 2 and e != -1:
            e = self.s.find("``", i + 3)
            raise Discard("empty escape")
        if e < 0:
            raise Illegal("escape not closed")
        c = self.s[i + 2:e]
        if c not in self.escapes:
            raise Discard("an escape outside the domain")
        self.roles["escape"] = self.roles.get("escape", 0) + 1
        return self.escapes[c], e + 2

    def comment(self, i, start, end, keep):
        kids = [start]
        i += len(start)
        while i < len(self.s):
            if self.s.startswith("``", i):
                n, i = self.escape(i)
                kids += n
            elif self.s.startswith(end, i):
                if keep:
                    kids.append(end)
                    i += len(end)
                break
            else:
                kids.append(self.s[i])
                i += 1
        self.span("comment", kids)
        return i

    def number(self, i, suffix):
        s = self.s
        m = re.compile(r"0[xX][0-9a-fA-F]+").match(s, i) or re.compile(r"0[0-7]+").match(s, i)
        if not m:
            m = re.compile(r"(?:[0-9]+\.?[0-9]*|\.[0-9]+)").match(s, i)
            if m and s[m.end():m.end() + 1] in ("e", "E"):
                e = re.compile(r"[eE][+\-]?[0-9]+").match(s, m.end())
                if not e:
                    raise Discard("a number with half an exponent")
                m = re.compile(re.escape(m.group() + e.group())).match(s, i)
        if not m:
            return None
        j = m.end()
        while j < len(s) and s[j] in suffix:
            j += 1
        return j

    def run(self):
        s, i = self.s, 0
        line_start = True
        while i < len(s):
            c = s[i]
            if self.mode != "teletype" and c in SPACE:
                if c == "\n":
                    line_start = True
                self.out.append(c)
                i += 1
                continue
            m = self.mode == "c++" and line_start and PREPRO.match(s, i)
            if m:
                self.span("preprocessor", [m.group()])
                i = m.end()
                line_start = False
                continue
            line_start = False
            m = self.macro(i)
            if m:
                self.out += self.macros[m]
                self.roles["macro"] = self.roles.get("macro", 0) + 1
                i += len(m)
                continue
            if s.startswith("``", i):
                n, i = self.escape(i)
                self.out += n
                continue
            if self.mode == "teletype":
                self.out.append(c)
                i += 1
                continue
            if self.mode == "c++":
                if s.startswith("//", i):
                    i = self.comment(i, "//", "\n", False)
                    continue
                if s.startswith("/*", i):
                    i = self.comment(i, "/*", "*/", True)
                    continue
                kws, sp, strings, suf = CPP, CPP_SPECIAL, [(CPP_STRING, "string"), (CPP_CHAR, "char")], "ldfuLDFU"
            else:
                if c == "#":
                    i = self.comment(i, "#", "\n", False)
                    continue
                kws, sp, strings, suf = PYTHON, PY_SPECIAL, [(PY_STRING, "string")], "ljLJ"
            m = IDENT.match(s, i)
            if m:
                self.span("keyword" if m.group() in kws else "identifier", [m.group()])
                i = m.end()
                continue
            m = sp.match(s, i)
            if m:
                self.span("special", [m.group()])
                i = m.end()
                continue
            for r, role in strings:
                m = r.match(s, i)
                if m:
                    self.span(role, [m.group()])
                    i = m.end()
                    break
            if m:
                continue
            j = self.number(i, suf)
            if j:
                self.span("number", [s[i:j]])
                i = j
                continue
            self.span("error", [c])
            i += 1
        return merge(self.out)

def columns(ws):
    n = 0
    for c in ws:
        n = n + 4 - n % 4 if c == "\t" else n + 1
    return n

def unindent(code):
    """The code without the blank lines at its start and the indentation
    that all its lines share."""
    lines = code.split("\n")
    while lines and not lines[0].strip(" \t"):
        lines.pop(0)
    if not lines:
        return ""
    indent = lambda l: l[:len(l) - len(l.lstrip(" \t"))]
    full = [l for l in lines if l.strip(" \t")]
    n = min(len(indent(l)) for l in full)
    if all(len(indent(l)) < n or indent(l)[:n] == indent(lines[0])[:n] for l in lines):
        return "\n".join(l[min(n, len(indent(l))):] for l in lines)
    cols = min(columns(indent(l)) for l in full)
    return "\n".join(" " * max(columns(indent(l)) - cols, 0) + l.lstrip(" \t") for l in lines)

ESC = {"esc": ["esc"], "[*b]": [E("emphasis", {"role": "bold"}, ["b"])], " a b ": [" a b "], "/i/": [E("emphasis", {}, ["i"])],
       "[~ s *t]": [E("replaceable", {}, ["s *t"])], "x<y": ["x<y"], "[/ c]": [], "mac": None, "=u=": [E("literal", {}, ["u"])],
       "[_ n\nm]": [E("emphasis", {"role": "underline"}, ["n\nm"])]}
MACROS = {"mac": ["M&M"], "mac2": [E("emphasis", {"role": "bold"}, ["two"])], "_x_": ["<u>"], "++++": ["plus"], "\u00e9t": ["ete"], "if": ["IF"], "#inc": ["hash"],
          "\"q": ["quote"], "12": ["dozen"], "/": ["slash"], "->": ["\u2192"], "void_": []}
MSRC = {"mac": "M&M", "mac2": "[*two]", "_x_": "<u>", "++++": "plus", "\u00e9t": "ete", "if": "IF", "#inc": "hash", "\"q": "quote", "12": "dozen", "/": "slash",
        "->": "\\u2192", "void_": "[/ nothing]"}

TOKENS = {
    "ident": ["x", "foo", "_a1", "A_B", "classes", "int_", "and_eqx", "defs", "i9", "L", "u", "R", "ur", "mac", "mac3", "iff", "xor_", "e5"],
    "number": ["0", "1", "12", "0x1F", "0XaB", "0xffffffff", "0777", "1.5", "3.", "1e5", "2.5e-3", "1E+2", "10L", "7ul", "1.0f", "3j", "0x1FL", "123456789",
               "08", "09.5", "0.5", "00", "077L", "12f4", "0x", "0xg", "0x123456789", "0xFFFFFFFFFFFFFFFF", "4294967296", "1..2", "1.2.3"],
    "string": ['""', '"a"', '"a b"', '"\\""', '"\\\\"', '"//"', '"/*"', "'c'", "'\\''", "'\\\\'", "''", "'''x'''", '"""y\'"""', "'''a\nb'''", '"\u20ac"', '"\\\u20ac"',
               "'\"'", '"\'"', '"#"', "\"a\nb\"", '"', "'", "'''", '"""', '"\\', '"``"'],
    "comment": ["// c", "//", "/* d */", "/**/", "/*/ e*/", "/* f\n g */", "# h", "#", "#\t", "#:", "/*", "*/", "// \u00fc", "//* i", "/***/", "// /* j"],
    "prepro": ["#include", "#define X", "# if 0", "#\n pragma", "#1", "#!x", "##y", "#endif", "#_z", "#inc"],
    "special": list("~!%^&*()+={[}]:;,<.>?/|\\-") + ["->", "::", "<<=", "&&", "...", "[]", "{}", "()", "++", "++++", "</", "]]>", "<!--", "-->", "&amp;"],
    "odd": ["@", "$", "\u00e9", "\u00e9t", "\u20ac", "\U0001d11e", "`", "\u00a0", "\u3000", "\u00df", "\ufffd"],
    "macro": list(MACROS),
}

def gen_code(src, mode, macros, escapes, tick, breaks, weird=True):
    """Code as a soup of tokens."""
    kws = sorted(CPP if mode == "c++" else PYTHON) if mode != "teletype" else ["class", "def"]
    out = ""
    for _ in src.many(1, 24, 8):
        k = src.weighted([(5, "ident"), (4, "keyword"), (3, "otherkw"), (4, "number"), (4, "string"), (3, "comment"), (2, "prepro"), (6, "special"), (1 if weird else 0, "odd"),
                          (3 if macros else 0, "macro"), (3 if escapes else 0, "escape"), (7, "blank"), (4 if breaks else 0, "eol")])
        if k == "keyword":
            out += src.pick(kws)
        elif k == "otherkw":
            out += src.pick(["and", "and_eq", "not", "class", "def", "print", "None", "int", "char", "char16_t", "const", "const_cast", "or", "or_eq", "in", "is", "this", "as"])
        elif k == "escape":
            out += "``" + src.pick(list(escapes)) + "``"
        elif k == "blank":
            out += src.pick([" ", " ", " ", "  ", "\t"])
        elif k == "eol":
            out += src.pick(["\n", "\n", "\n  ", "\n    ", "\n\t", " \n", "\n \t"] + (["\n\n"] if breaks > 1 else []))
        elif k == "macro":
            out += src.pick(list(macros))
        else:
            out += src.pick(TOKENS[k])
        if src.bool(0.4):
            out += " "
    return out

def place(src, mode, ver, code, kind):
    """The code in the document: source and its text as it should appear."""
    if kind == "inline":
        code = code.strip(" ")
        if "`" in code or re.search(r"\n[ \t]*\n", code) or not code:
            raise Discard("not inline code")
        return "o `" + code + "` e", code
    if kind == "fence":
        n = src.pick([2, 3])
        lead = src.pick(["", "\n", "\n", "  \n\n", "\n \n"])
        tail = src.pick(["", "\n", "\n", " ", "\n\n ", " \n"])
        body = lead + code + tail
        ticks = re.findall(r"`+", body)
        if n == 2 and any(len(t) > 1 for t in ticks) or n == 3 and any(len(t) > 2 for t in ticks):
            raise Discard("fences inside the code")
        if body.strip(SPACE)[-1:] in ("`", "") or body.strip(SPACE)[:1] == "`":
            raise Discard("the fence is longer")
        content = re.sub(r"\A([ \t]*\n)*", "", body)
        core = content.rstrip(SPACE)
        m = re.match(r"[ \t]*\n", content[len(core):])
        return "`" * n + body + "`" * n, unindent(core + (m.group() if m else ""))
    ind = src.pick(["  ", "    ", "\t", " ", "  \t"])
    odd = src.bool(0.1)
    lines = code.split("\n")
    while lines and not lines[0].strip(" \t"): lines.pop(0)
    while lines and not lines[-1].strip(" \t"): lines.pop()
    if not lines:
        raise Discard("nothing in the code")
    out = []
    for l in lines:
        if not l.strip(" \t"):
            out.append(l if src.bool() else ind + l)
        else:
            out.append((src.pick(["  ", "\t", "    "]) if odd else ind) + l)
    text = "\n".join(out) + "\n"
    return text, unindent(text)

def f_lex(src, env):
    ver = src.pick([107, 107, 106, 105, 104, 101])
    names = [m for m in MACROS if src.bool(0.25)] if src.bool(0.6) else []
    macros = {n: MACROS[n] for n in names}
    escapes = {}
    if src.bool(0.6):
        escapes = {k: v for k, v in ESC.items() if v is not None}
        if ver < 106: escapes.pop("[_ n\nm]", None)
        if "mac" in macros: escapes["mac"] = MACROS["mac"]
        # macros inside the escapes would be expanded
        escapes = {k: v for k, v in escapes.items() if k == "mac" or not any(m in k for m in macros)}
    doc_mode = src.pick(["c++", "c++", "python", "teletype"])
    mode = doc_mode
    doc = header(ver, extra="[source-mode %s]\n" % mode if mode != "c++" or src.bool() else "")
    for n in names:
        doc += "[def %s %s]\n" % (n, MSRC[n])
    doc += "\nsep\n\n"
    want = [E("para", {}, ["sep"])]
    errors = 0
    illegal = False
    spans = 0
    for _ in src.many(1, 3, 1.6):
        if src.bool(0.4):
            mode = src.pick(["c++", "python", "teletype"])
            doc += "[%s]\n\n" % mode
        kind = src.pick(["inline", "fence", "block", "block"])
        code = gen_code(src, mode, macros, escapes if kind != "inline" else {}, kind != "inline", 1 if kind == "inline" else 2)
        if ver >= 107 and kind != "inline" and re.search(r"/\*<|#<", code):
            raise Discard("callouts")
        source, text = place(src, mode, ver, code, kind)
        if not text.strip(SPACE):
            raise Discard("nothing in the code")
        lx = Lexer(text, mode, macros, escapes)
        try:
            nodes = lx.run()
        except Illegal:
            illegal = True
            nodes = []
        errors += lx.errors
        spans += len([x for x in nodes if isinstance(x, E)])
        for r in lx.roles: src.label(mode + " " + r)
        src.label(kind)
        doc += source + "\n\nsep\n\n"
        if kind == "inline":
            want.append(E("para", {}, ["o ", E("code", {}, nodes), " e"]))
        elif kind == "fence" and ver < 106:
            want.append(E("para", {}, [E("programlisting", {}, nodes)]))
        else:
            want.append(E("programlisting", {}, nodes))
        want.append(E("para", {}, ["sep"]))
    src.key = doc
    src.sample = doc
    src.nontrivial = spans > 2 or mode == "teletype"
    res = convert(env, doc, ok=not illegal)
    if illegal:
        src.label("unclosed escape")
        return
    root = tree(doc, res)
    shown = "----- document\n%s\n----- output\n%s" % (doc, res.files["o.xml"].decode("utf-8", "replace"))
    d = diff(canon(E("#body", {}, want), False, False), canon(E("#body", {}, body_of(root)), False, False))
    if d:
        raise Fail(d + "\n" + shown)
    pair = [[text_of(e) for e in walk(r) if isinstance(e, E) and e.tag in ("code", "programlisting")] for r in (E("#body", {}, want), root)]
    if pair[0] != pair[1]:
        raise Fail("the text of the code is %r instead of %r\n%s" % (pair[1], pair[0], shown))
    n = res.err.decode("utf-8", "replace").count("unexpected character")
    if n != errors:
        raise Fail("%d warnings of unexpected characters, not %d\n%s\n%s" % (n, errors, doc, res.describe()))

def f_raw(src, env):
    """Any characters at all: the text is kept."""
    ver = src.pick([107, 106, 105])
    mode = src.pick(["c++", "python", "teletype"])
    alphabet = src.pick([
        ["\"", "'", "\\", "a", "\n", " ", "L", "u", "/", "*", "#"],
        ["/", "*", "\n", " ", "x", "#", "<", ">", "=", "-"],
        ["#", " ", "\n", "a", "1", "\t", "//", "/*", "*/", "!"],
        ["0", "x", "1", "e", ".", "+", "-", "l", "f", "u", "9", "F", " ", "j", "8"],
        [chr(c) for c in range(32, 127)] + ["\n", "\u00e9", "\u20ac", "\U0001f600", "\u2028", "\u0085", "\ufeff", "\u05d0", "\u0301"],
        [chr(c) for c in range(32, 127) if chr(c) != "`"] + ["\n", "\n", "\t", "  "],
    ])
    code = "".join(src.pick(alphabet) for _ in src.many(1, 120, 25))
    kind = src.pick(["inline", "fence", "block"])
    if "``" in code or ver >= 107 and re.search(r"/\*<|#<", code):
        raise Discard("escapes or callouts")
    doc = header(ver, extra="[source-mode %s]\n" % mode)
    source, text = place(src, mode, ver, code, kind)
    if not text.strip(SPACE):
        raise Discard("nothing in the code")
    doc += "\nsep\n\n" + source + "\n\nsep\n"
    src.key = doc
    src.sample = doc
    src.label(kind)
    src.label(mode)
    src.nontrivial = len(set(text)) > 3
    res = convert(env, doc)
    root = tree(doc, res)
    got = [e for e in walk(root) if isinstance(e, E) and e.tag in ("code", "programlisting")]
    if len(got) != 1 or text_of(got[0]) != text:
        raise Fail("the code is not kept: %r\ninstead of %r\n%s\n%s" % ([text_of(e) for e in got], text, doc, res.files["o.xml"].decode("utf-8", "replace")))
    try:
        want = Lexer(text, mode, {}, {}).run()
    except (Illegal, Discard):
        return
    src.label("roles compared")
    if any(isinstance(x, E) and x.attrs["role"] in ("string", "char", "number", "identifier", "keyword") for x in want):
        src.label("tokens")
    d = diff(canon(E("code", {}, want), False, False), canon(E("code", {}, got[0].kids), False, False))
    if d:
        raise Fail("%s\n%s\n%s" % (d, doc, res.files["o.xml"].decode("utf-8", "replace")))

PROBE = {"c++": lambda k: [("identifier", "def"), ("identifier", k), ("special", "#"), ("identifier", "x")],
         "python": lambda k: [("keyword", "def"), ("identifier", k), ("comment", "#x")],
         "teletype": lambda k: []}

class Modes:
    """The source modes in force, by the time they were set."""
    def __init__(self, mode):
        self.time = 1
        self.glob = (1, mode)
        self.stack = []
        self.sections = []
        self.next = None
        self.warnings = 0
    def cur(self):
        return max([self.glob] + self.stack + self.sections[-1:])
    def set(self, mode):
        self.time += 1
        self.glob = (self.time, mode)
    def tag(self):
        """Starts an element, with the mode that was set for it alone."""
        if self.next:
            self.time += 1
            self.stack.append((self.time, self.next))
        else:
            self.stack.append((0, ""))
        self.next = None
    def untag(self):
        self.stack.pop()
    def code(self):
        m = self.next or self.cur()[1]
        self.next = None
        return m

class ModeDoc:
    def __init__(self, src, ver, mode):
        self.src, self.ver, self.m = src, ver, Modes(mode)
        self.n = 0
        self.want = []
        self.sets = 0
        self.files = {}
    def probe(self, inline=True, indent=""):
        self.n += 1
        k = "k%d" % self.n
        self.want.append((k, self.m.code()))
        if inline:
            return "`def %s #x`" % k
        return indent + "def %s #x\n" % k
    def mode(self):
        self.sets += 1
        return self.src.pick(["c++", "python", "teletype"])
    def nxt(self):
        """Perhaps a mode for the next element."""
        if self.ver >= 107 and self.src.bool(0.4):
            self.m.next = self.mode()
            return "[!%s]" % self.m.next
        return ""
    def phrase(self, depth=0, first=True):
        src = self.src
        out = "w" if first else "v"
        for _ in src.many(1, 5, 2.5):
            k = src.weighted([(5, "probe"), (3, "set"), (3, "next"), (3 if depth < 2 else 0, "inline"), (1, "word"), (2 if self.temps and depth < 2 else 0, "call")])
            out += " "
            if k == "probe":
                out += self.probe()
            elif k == "set":
                m = self.mode()
                if self.m.next:
                    # the element is tagged, the change persists
                    self.m.next = None
                self.m.set(m)
                out += "[%s]" % m
            elif k == "next":
                n = self.nxt()
                if n:
                    # white space is no element; what comes next must take a mode
                    if src.bool(0.7) or depth >= 2:
                        out += n + src.pick(["", " "]) + self.probe()
                    else:
                        out += n + src.pick(["", " "]) + self.inline(depth)
            elif k == "inline":
                out += self.inline(depth)
            elif k == "call":
                out += self.call()
            else:
                out += "x"
        return out
    def inline(self, depth):
        self.m.tag()
        s = "[" + self.src.pick(["*", "'", "_", "~"]) + " " + self.phrase(depth + 1) + "]"
        self.m.untag()
        return s
    temps = ()
    def call(self):
        name, mode = self.src.pick(self.temps)
        # a mode set by the template stays inside it
        saved = self.m.glob
        if mode:
            self.m.set(mode)
        self.want.append(("kt", self.m.code()))
        if self.m.glob is not saved:
            self.m.glob = saved
        return "[%s]" % name
    def para(self):
        pre = self.nxt()
        if pre: pre += "\n"
        self.m.tag()
        s = self.phrase()
        self.m.untag()
        return pre + s + "\n\n"
    def block(self, depth):
        src = self.src
        k = src.weighted([(4, "para"), (4, "code"), (3, "fence"), (3, "list"), (3, "set"), (3 if depth < 2 else 0, "note"), (2, "table"), (3 if depth == 0 else 0, "section"),
                          (3 if len(self.files) < 3 and (depth == 0 or self.ver >= 107) else 0, "include")])
        src.label(k)
        if k == "para":
            return self.para()
        if k == "set":
            m = self.mode()
            self.m.set(m)
            return "[%s]\n\n" % m
        if k == "code":
            pre = self.nxt()
            if depth:
                return pre + "\n```\n" + self.probe(False) + "```\n\n"
            return (pre + "\n\n" if pre else "") + self.probe(False, "    ") + "\nw\n\n"
        if k == "fence":
            pre = self.nxt()
            return pre + src.pick(["", "\n"]) * bool(pre) + "```\n" + self.probe(False) + "```\n\n"
        if k == "list":
            if depth:
                return self.para()
            pre = self.nxt()
            self.m.tag()
            out = pre + "\n" if pre else ""
            for _ in src.many(1, 3, 2):
                out += "* " + self.phrase() + "\n"
            self.m.untag()
            return out + "\nw\n\n"
        if k == "table":
            pre = self.nxt()
            self.m.tag()
            out = pre + "[table\n"
            for _ in src.many(1, 2, 1.5):
                out += "["
                for _ in range(2):
                    out += "[" + self.phrase() + "]"
                out += "]\n"
            self.m.untag()
            return out + "]\n\n"
        if k == "note":
            pre = self.nxt()
            self.m.tag()
            out = pre + "[note\n\n" + self.blocks(depth + 1) + "\n]\n\n"
            self.m.untag()
            return out
        if k == "include":
            pre = self.nxt()
            self.m.tag()
            saved = self.m.glob
            name = "i%d.qbk" % len(self.files)
            self.files[name] = ""
            sub = ""
            own = src.bool(0.4)
            if own:
                # a document of its own starts with its own mode
                modes = src.pick([["python"], ["c++"], ["teletype"], [], ["python", "teletype"], ["teletype", "c++"]])
                if modes or self.ver >= 106:
                    self.m.set(modes[-1] if modes else "c++")
                marks = ["[source-mode %s]" % x for x in modes]
                # before the document information, in it, or both
                before = src.int(0, len(marks))
                ver = "[quickbook 1.%d]" % (self.ver - 100)
                outer, inner = marks[:before], marks[before:]
                outer.insert(src.int(0, len(outer)), ver)
                if before:
                    src.label("mode before the document information")
                sub = "\n".join(outer) + "\n[article I%d\n%s]\n\n" % (len(self.files), "\n".join(inner))
            n = len(self.m.sections)
            self.files[name] = sub + "w\n\n" + self.blocks(max(depth, 0 if src.bool(0.5) else 1)) + "w\n"
            if self.ver >= 106:
                self.m.glob = saved
            self.m.untag()
            return pre + "[include " + name + "]\n\n"
        pre = self.nxt()
        self.m.tag()
        self.m.sections.append(self.m.cur())
        self.m.untag()
        out = pre + "[section s%d]\n\n" % self.n
        out += self.blocks(depth)
        out += "[endsect]\n\n"
        self.m.sections.pop()
        return out
    def blocks(self, depth):
        if depth == 0 and len(self.m.sections) > 2:
            return self.para()
        return "".join(self.block(depth) for _ in self.src.many(1, 4, 2.5))

def f_modes(src, env):
    ver = src.pick([107, 107, 107, 106, 105])
    mode = src.pick(["c++", "python", "teletype"])
    d = ModeDoc(src, ver, mode)
    doc = header(ver, extra="[source-mode %s]\n" % mode)
    if src.bool(0.6):
        d.temps = [("ta", None), ("tb", "python"), ("tc", "c++"), ("td", "teletype")]
        for n, m in d.temps:
            doc += "[template %s[]%s`def kt #x`]\n" % (n, "[%s]" % m if m else "")
    doc += "\nw\n\n" + d.blocks(0)
    files = d.files
    src.key = doc + repr(files)
    src.sample = doc = doc + "".join("\n----- %s\n%s" % x for x in files.items())
    src.nontrivial = d.sets >= 2 and len(d.want) >= 2
    res = convert(env, doc.split("\n----- ")[0], files=files)
    root = tree(doc, res)
    got = []
    for e in walk(root):
        if isinstance(e, E) and e.tag in ("code", "programlisting"):
            got.append(([(p.attrs.get("role"), text_of(p)) for p in e.kids if isinstance(p, E)], text_of(e)))
    if len(got) != len(d.want):
        raise Fail("%d pieces of code, not %d\n%s" % (len(got), len(d.want), doc))
    for (k, m), (roles, text) in zip(d.want, got):
        if roles != PROBE[m](k):
            raise Fail("%s should be highlighted as %s, not %s (%r)\n%s\n%s" % (k, m, roles, text, doc, res.files["o.xml"].decode("utf-8", "replace")))
    if b"warning" in res.err:
        raise Fail("an unexpected warning\n%s\n%s" % (doc, res.describe()))

class Word(dict):
    """The escapes whose content is plain text."""
    def __contains__(self, k):
        return re.search(r"`.*`", k, re.S) is None and bool(k.strip())
    def __getitem__(self, k):
        return [k]

def f_fences(src, env):
    """Runs of back quotes of other lengths than the fence's within it."""
    ver = src.pick(VERSIONS)
    n = src.pick([2, 3])
    odd = 1 if src.bool(0.1) else 0
    runs = [1, 1, 2, 4, 5, 5, 6] if n == 3 else [1, 1, 3, 4, 5, 3]
    body = src.pick(["a", "\n", "\na", " b"])
    for _ in src.many(1, 9, 4):
        body += src.weighted([(3, "`" * src.pick(runs)), (odd, "`" * n), (3, "a"), (1, " "), (1, "\n"), (1, "b"), (1, " `"), (1, "\n  ")])
    body += src.pick(["", "\n", "x", " ", "x\n"])
    text = "`" * n + body + "`" * n
    if body.endswith("`") and src.bool(0.7):
        raise Discard("the fence is longer")
    rest = text + "\n\nsep\n"
    # the end of the code
    i = re.compile(r"([ \t]*\n)*").match(rest, n).end()
    j = i
    long, close = re.compile("`{%d,}" % (n + 1)), re.compile(r"[ \t\r\n\f\v]*`{%d}(?!`)" % n)
    unclosed = False
    runs = 0
    while True:
        if j >= len(rest):
            unclosed = True
            break
        m = long.match(rest, j)
        if m:
            j = m.end()
            runs += 1
        elif close.match(rest, j):
            break
        else:
            j += 1
    doc = header(ver) + "sep\n\n[teletype]\n\n" + rest
    if not unclosed:
        m = re.compile(r"[ \t]*\n").match(rest, j)
        code = unindent(rest[i:m.end() if m else j])
        after = rest[close.match(rest, j).end():]
        if "`" in after or re.match(r"\n[^\n]", after):
            raise Discard("more back quotes")
        if not code.strip(SPACE):
            raise Discard("nothing in the code")
        try:
            want = Lexer(code, "teletype", {}, Word()).run()
        except Illegal:
            unclosed = True
        except Discard:
            if "````" not in code: raise
            unclosed = True # an escape with nothing in it
    src.key = doc
    src.sample = doc
    src.nontrivial = runs > 0
    res = convert(env, doc, ok=not unclosed)
    if unclosed:
        src.label("in error")
        return
    root = tree(doc, res)
    got = [e for e in walk(root) if isinstance(e, E) and e.tag in ("code", "programlisting")]
    d = len(got) != 1 and "%d pieces of code" % len(got) or diff(canon(E("code", {}, want), False, False), canon(E("code", {}, got[0].kids), False, False))
    if d:
        raise Fail("%s\n%s\n%s" % (d, doc, res.files["o.xml"].decode("utf-8", "replace")))

PROPERTY = {
    "id": "C13",
    "rule": "lex: more than 2 highlighted phrases or teletype; raw: more than 3 different characters; modes: at least two settings and two pieces of code; fences: a longer run of back quotes",
    "families": [
        Family("lex", f_lex, 9000),
        Family("raw", f_raw, 4500),
        Family("modes", f_modes, 4500),
        Family("fences", f_fences, 2500, rule="a longer run of back quotes in the code"),
    ],
}
