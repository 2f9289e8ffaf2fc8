"""Documents without an expected translation: every construct of the language
with plausible and implausible content, for the checks that relate whole runs.
Nesting is bounded: see the known findings of C01."""

WORDS = ["alpha", "beta", "x", "of", "caf\u00e9", "\u65e5\u672c", "7", "&", "<b>", "]]>"[2:], "a<b", "&amp;", "it's", '"q"', "-->", "__m1__", "M2", "w_w", "*k*", "/it/",
         "_u_", "=c=", "`code`", "\\n"[:0] + "word", "\\*", "\\u00e9", "\\U0001F600", "\\ ", "--", ".", "..", ",", "(", ")", "{", "}", "#", "@", "$", "%", "^", "|", "~", ";",
         "__FILENAME__", "\ufeff"[:0] + "end", "\u00a0", "\u2028"]
INL = ["*", "'", "_", "^", "-", '"', "~"]
REFS = ["link", "@", "funcref", "classref", "memberref", "enumref", "macroref", "headerref", "conceptref", "globalref"]
ADMON = ["note", "tip", "warning", "caution", "important", ":", "blurb"]
MODES = ["c++", "python", "teletype"]
CODE = ["int", "x", "=", "if", "(", ")", "{", "}", '"s"', "'c'", "// c", "/* c */", "#define A", "42", "0x1f", "<", ">", "&", ";", "``", "__m1__", "def", "class", "'''d'''", "\\",
        "\"", "'", "/*", "*/", "[", "]", "``[* e]``", "#", ":", "\t", "caf\u00e9", "/*< co >*/", "/*<< co >>*/", "/*=", "=*/", "\u65e5"]
EXTS = [".png", ".svg", ".jpg", ""]

class Soup:
    def __init__(self, src, ver, raw=True, breaks=True, files=True, errors=True):
        self.src, self.ver, self.raw, self.breaks, self.withfiles, self.errors = src, ver, raw, breaks, files, errors
        self.files = {}
        self.templates = []
        self.seq = 0

    def words(self, lo=0, hi=5, mean=2):
        return " ".join(self.src.pick(WORDS) for _ in self.src.many(lo, hi, mean))

    def phrase(self, depth=3, lo=0, hi=7, mean=3):
        src = self.src
        out = ""
        for _ in src.many(lo, hi, mean):
            k = src.weighted([(10, "word"), (4 if depth else 0, "inline"), (2 if depth else 0, "ref"), (1, "anchor"), (1, "image"), (1 if depth else 0, "footnote"),
                              (2 if depth else 0, "cond"), (2 if depth and self.ver >= 106 else 0, "role"), (2, "call"), (1 if self.raw else 0, "raw"), (1 if self.breaks else 0, "br"),
                              (1, "code"), (1, "comment"), (1, "mode"), (1, "bracket"), (1 if depth else 0, "block"), (1 if self.errors else 0, "stray")])
            if k == "word": s = src.pick(WORDS)
            elif k == "inline": s = "[" + src.pick(INL) + src.pick([" ", "", "\n"]) + self.phrase(depth - 1) + "]"
            elif k == "ref": s = "[" + src.pick(REFS) + " " + src.pick(["a.b", "http://h/?a=1&b=2", "x<y>", "", "__m1__", "a[b", "caf\u00e9", "\\[x", "\"q\"", "a\nb", "boost:/libs/x", "[t0]"])
            else: s = None
            if k == "ref": s += src.pick([" ", ""]) + self.phrase(depth - 1, 0, 3, 1) + "]"
            elif k == "anchor": s = "[#" + src.pick(["a1", "a1", "x.y", "A-b", "a b", "", "$1", "\u00e9", "__m1__", "[t0]"]) + "]"
            elif k == "image":
                s = "[$" + src.pick(["", " "]) + src.pick(["i", "dir/i", "", "a b", "../i", "caf\u00e9", "x\\y", "<i>"]) + src.pick(EXTS)
                for _ in src.many(0, 3, 0.6):
                    s += " [" + src.pick(["width", "alt", "fileref", "align", "", "1a", "a_b", "contentwidth"]) + " " + src.pick(["5", "a\"b", "<&>", "", "\\[x\\]", "t"]) + "]"
                s += "]"
            elif k == "footnote": s = "[footnote " + self.phrase(depth - 1, 0, 3, 1) + "]"
            elif k == "cond": s = "[?" + src.pick(["", "!", " "]) + src.pick(["__m1__", "M2", "no", ""]) + " " + self.phrase(depth - 1) + "]"
            elif k == "role": s = "[role " + src.pick(["red", "a_b", "x-y", "\"q\"", "", "<r>"]) + " " + self.phrase(depth - 1, 0, 3, 1) + "]"
            elif k == "call":
                if not self.templates:
                    s = "[none]" if self.errors and src.bool(0.3) else "w"
                else:
                    n, np = src.pick(self.templates)
                    if self.errors and src.bool(0.1):
                        np += 1
                    s = "[" + src.pick(["", "", "`" if self.raw else ""]) + n + "".join((" " if i == 0 else "..") + self.phrase(max(0, depth - 1), 0, 2, 1) for i in range(np)) + "]"
            elif k == "raw": s = "'''" + src.pick(["<b>x</b>", "&amp;", "", " ", "<b>", "</b>", "<!-- c -->", "<x id=\"$0\"/>", "id=\"$9\"", "<a b='c'", "\n", "[* x]", "<?p?>", "<![CDATA[x]]>"]) + "'''"
            elif k == "br": s = src.pick(["[br]", "\\n"])
            elif k == "code": s = src.pick(["`%s`", "``%s``", "`%s`", "```%s```"]) % " ".join(src.pick(CODE[:30]) for _ in src.many(1, 4, 2)).replace("`", "")
            elif k == "comment": s = "[/ " + self.words() + "]"
            elif k == "mode": s = "[" + src.pick(["", "!"]) + src.pick(MODES) + "]"
            elif k == "bracket": s = "[" + src.pick(["0 x", "]", "", "_x", "unknown y", "hr", "a..b"]) + "]"
            elif k == "block": s = "[" + src.pick(ADMON + ["h2", "pre", "def", "endsect", "heading"]) + " " + self.phrase(depth - 1, 0, 3, 1) + "]"
            elif k == "stray": s = src.pick(["[", "]", "'''", "`", "``", "[/", "[*", "\\", "[t0", "[def", "[#", "..", "\\u12", "\\U00110000", "\\ud800", "[table", "[$"]) if src.bool(0.15) else "z"
            out += s + src.weighted([(6, " "), (2, ""), (1, "\n"), (1, "  ")])
        return out

    def blocks(self, depth=2, lo=1, hi=6, mean=3):
        src = self.src
        out = ""
        for _ in src.many(lo, hi, mean):
            out += self.block(depth) + src.weighted([(5, "\n\n"), (2, "\n"), (1, "\n\n\n")])
        return out

    def block(self, depth):
        src = self.src
        k = src.weighted([(8, "para"), (4, "heading"), (3, "list"), (2, "code"), (1, "hr"), (3 if depth else 0, "admon"), (1, "pre"), (2, "table"), (1, "varlist"), (1, "elist"),
                          (2, "def"), (2, "template"), (2, "section"), (1, "begin"), (1 if self.errors else 0, "endsect"), (1 if self.withfiles else 0, "file"), (1, "xinclude"), (1, "fence"),
                          (1 if depth else 0, "block"), (1, "mode")])
        if k == "para": return self.phrase(3, 1, 9, 4)
        if k == "heading": return "[" + src.pick(["h1", "h2", "h5", "h6", "heading"]) + src.pick(["", ":id1", ":", ":x-y"]) + " " + self.phrase(1, 0, 3, 2) + "]"
        if k == "list":
            o, col = "", 0
            for _ in src.many(1, 6, 3):
                col = max(0, col + src.pick([0, 0, 1, 2, 4, -1, -2, -4]))
                o += " " * col + src.weighted([(4, "* "), (3, "# "), (1, ""), (1, "*"), (1, "\t* "), (1, "\n")]) + self.phrase(1, 1, 4, 2) + "\n"
            return o
        if k == "code":
            return "\n".join(src.pick(["  ", "    ", "\t", "   "]) + " ".join(src.pick(CODE) for _ in src.many(1, 6, 3)) for _ in src.many(1, 4, 2))
        if k == "hr": return "----" + src.pick(["", "--", " x"])
        if k == "admon": return "[" + src.pick(ADMON) + src.pick([" ", "\n", "\n\n"]) + self.blocks(depth - 1, 0, 3, 1.5) + "]"
        if k == "pre": return "[pre " + self.phrase(1) + "\n  " + self.words() + "\n]"
        if k in ("table", "varlist", "elist"):
            head = {"table": "[table", "varlist": "[variablelist", "elist": "[" + src.pick(["ordered_list", "itemized_list"])}[k]
            o = head + src.pick(["", ":tid"]) + src.pick([" ", " T", " *T* x", ""]) + src.pick(["\n", " ", "\n\n"])
            for _ in src.many(0, 4, 2):
                cells = ""
                for _ in src.many(0, 3, 2):
                    cells += "[" + (self.blocks(depth - 1, 0, 2, 1) if depth and src.bool(0.2) else self.phrase(1, 0, 3, 1)) + "]" + src.pick(["", " ", "\n"])
                o += cells if k == "elist" else "[" + cells + "]" + src.pick(["\n", "", " "])
            return o + "]"
        if k == "def": return "[def " + src.pick(["__m1__", "M2", "__x", "=", "a b", ""]) + " " + self.phrase(1, 0, 4, 2) + "]"
        if k == "template":
            n = "t%d" % len(self.templates)
            np = src.int(0, 2)
            body = self.phrase(2, 0, 5, 3) if src.bool(0.6) else "\n" + self.blocks(1, 1, 3, 2)
            for i in range(np):
                body += " [p%d]" % i
            r = "[template " + n + ("[" + " ".join("p%d" % i for i in range(np)) + "]" if np or src.bool(0.5) else "") + src.pick([" ", "\n", ""]) + body + "]"
            self.templates.append((n, np))
            return r
        if k in ("section", "begin"):
            o = "[section" + src.pick(["", "", ":s1", ": ", ":a.b"]) + " " + self.phrase(1, 0, 3, 2) + "]"
            if k == "begin" and self.errors and src.bool(0.3):
                return o
            return o + "\n\n" + (self.blocks(depth - 1, 0, 3, 2) if depth else "") + "\n[endsect" + src.pick(["", "", ":s1" if self.errors else ""]) + "]"
        if k == "endsect": return "[endsect]" if src.bool(0.1) else "q"
        if k == "file":
            self.seq += 1
            n = "f%d%s" % (self.seq, src.pick([".qbk", ".qbk", ".cpp", ".py", ".txt"]))
            op = src.pick(["include", "import"])
            if n.endswith(".qbk"):
                sub = Soup(src, src.pick([self.ver, self.ver, 107, 105]), self.raw, self.breaks, False, self.errors)
                sub.templates = list(self.templates)
                t = "" if src.bool(0.2) else "[quickbook 1.%d]\n" % (sub.ver - 100) if src.bool(0.6) else "[chapter C\n[quickbook 1.%d]\n]\n" % (sub.ver - 100)
                self.files[n] = t + "\n" + sub.blocks(1, 0, 4, 2)
                if op == "import":
                    self.templates = self.templates + [x for x in sub.templates if x not in self.templates]
            else:
                self.files[n] = self.source(n)
            if src.bool(0.08) and self.errors:
                n = "missing.qbk"
            return "[" + op + src.pick([" ", ":inc "]) + n + "]"
        if k == "xinclude": return "[xinclude " + src.pick(["x.xml", "a b.xml", "d/x.xml", "/abs.xml"]) + "]"
        if k == "fence": return src.pick(["``", "```"]) + "\n" + "\n".join(" ".join(src.pick(CODE) for _ in src.many(0, 5, 3)) for _ in src.many(1, 3, 2)) + "\n``"
        if k == "block": return "[block " + self.phrase(1) + "]"
        if k == "mode": return "[" + src.pick(["", "!"]) + src.pick(MODES) + "]" + src.pick(["", "\n\n    code x"])

    def source(self, name):
        """A program with snippets."""
        src = self.src
        py = name.endswith(".py")
        o, open_ = "", []
        for _ in src.many(0, 8, 4):
            k = src.weighted([(4, "code"), (3, "open"), (3, "close"), (2, "doc"), (1, "ignore"), (1, "callout"), (1, "odd")])
            ind = src.pick(["", "  ", "    "])
            if k == "code": o += ind + " ".join(src.pick(CODE) for _ in src.many(0, 5, 3)) + "\n"
            elif k == "open":
                n = src.pick(["sn1", "sn2", "sn3"])
                open_.append(n)
                o += ind + ("#[%s\n" if py else src.pick(["//[%s\n", "/*[%s*/\n"])) % n
            elif k == "close":
                if open_ or (self.errors and src.bool(0.2)):
                    if open_: open_.pop()
                    o += ind + ("#]\n" if py else src.pick(["//]\n", "/*]*/\n"]))
            elif k == "doc": o += ind + ("#`" if py else "//`") + self.phrase(1, 0, 4, 2).replace("\n", " ") + "\n"
            elif k == "ignore": o += ind + ("#<-\n hidden\n#->\n" if py else src.pick(["//<-\n hidden\n//->\n", "/*<-*/ hidden /*->*/\n"]))
            elif k == "callout": o += ind + "x; " + src.pick(["/*< co >*/", "/*<< co [* b] >>*/", "/*` text */", "/*` text [* */"][:3]) + "\n"
            else: o += src.pick(["/*`\n para\n\n para2\n*/\n", '"""`\n text\n"""\n', "//=raw line\n", "/*=\nraw\n=*/\n", "//` a\n//` b\n", "/**\n * x\n */\n"])
        for _ in open_:
            if not self.errors or not src.bool(0.05):
                o += "#]\n" if py else "//]\n"
        return o

def document(src, ver=None, raw=True, breaks=True, files=True, errors=True, info=True, mean=4):
    """(main file's text, other files, Soup)"""
    if ver is None:
        ver = src.pick([107, 107, 106, 105, 104, 103, 102, 101])
    s = Soup(src, ver, raw, breaks, files, errors)
    typ = src.pick(["article", "article", "library", "book", "chapter", "part"])
    # the title is raw BoostBook before 1.6
    head = "[%s T%s\n[quickbook 1.%d]\n" % (typ, src.pick(["", " & <b>" if ver >= 106 else " x", " caf\u00e9"]), ver - 100)
    if info:
        for _ in src.many(0, 4, 1):
            head += src.pick(["[id doc]", "[version 1.0]", "[authors [A, B], [C, D]]", "[copyright 2001-2003, 2005 Me]", "[purpose p *x*]", "[license l]", "[category x]", "[lang en]",
                              "[source-mode python]", "[dirname d]", "[last-revision r]", "[biblioid isbn 1]", "[compatibility-mode 1.5]"]) + "\n"
    doc = head + "]\n\n" + s.blocks(2, 1, 10, mean)
    return doc, s.files, s

def mutate(src, text, tokens=None):
    """Small damage anywhere."""
    for _ in src.many(1, 6, 2):
        if not text:
            return src.pick(["[", "", "\x00"])
        i = src.int(0, len(text) - 1)
        k = src.pick(["delete", "insert", "copy", "cut", "swap"])
        if k == "delete":
            text = text[:i] + text[i + src.int(1, 8):]
        elif k == "insert":
            text = text[:i] + src.pick(["[", "]", "'''", "`", "``", "```", "\\", "\n", "\n\n", "  ", "\t", "\r", "\r\n", "\x00", "[/", "..", "[*", "[section x]", "[endsect]", "[t0]", "*", "#", " * ",
                                        "[def a ", "[template q[] ", "[table ", "[[", "]]", "__", "=", "/", "\u00e9", "\ufffd", "[$", "[@", "[#", "[?", "[!", "//[", "//]", "[`", ":", "\\u",
                                        "[quickbook 1.4]", "----", "[:", "\x01", "\udcff", "\udcc3", "\ufeff"]) + text[i:]
        elif k == "copy":
            j = min(len(text), i + src.int(1, 40))
            p = src.int(0, len(text))
            text = text[:p] + text[i:j] + text[p:]
        elif k == "cut":
            text = text[:i]
        else:
            j = src.int(0, len(text) - 1)
            text = text[:i] + text[j] + text[i + 1:]
    return text
