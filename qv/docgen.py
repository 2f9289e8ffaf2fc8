"""Version-aware generator of quickbook documents together with the BoostBook
tree that the documentation promises for them."""
import re
from .xmltree import E, merge, text_of, canon, diff, parse_xml, NotWellFormed

WORDS = ["alpha", "beta", "gamma", "delta", "x", "to", "of", "it", "zeta9", "n1", "Kappa", "Lambda", "mu", "word", "text",
         "caf\u00e9", "\u65e5\u672c", "\u043f\u0440", "na\u00efve", "a\u0301b", "\U0001f600", "7", "42", "3rd"]
SAFE_MID = ["&", "<", ">", "-", "+", "%", "'", '"', ",", ".", ";", ":", "!", "?", "(", ")", "{", "}", "|", "~", "^", "$", "@", "#", "*", "/", "_", "=",
            "&amp;", "&lt;", "<b>", "<b/ >", "]]>"[2:], "<!--", "-->", "\u00a0", "\u2028"]
SAFE_ALONE = ["&", "<", ">", "-", "+", "%", ",", ".", ";", "!", "?", "(", ")", "{", "}", "|", "~", "^", "$", "@", "*", "/", "_", "=", "&amp;", "&#65;",
              "<b>", "<para>", "<!--", "-->", "]]>"[2:], "\u2014"]
PUNCT = "!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~"
SIMPLE = {"*": ("emphasis", {"role": "bold"}), "/": ("emphasis", {}), "_": ("emphasis", {"role": "underline"}), "=": ("literal", {})}
INLINE = {"*": ("emphasis", {"role": "bold"}), "'": ("emphasis", {}), "_": ("emphasis", {"role": "underline"}), "^": ("literal", {}),
          "-": ("emphasis", {"role": "strikethrough"}), '"': ("quote", {}), "~": ("replaceable", {})}
REFS = {"funcref": "functionname", "classref": "classname", "memberref": "methodname", "enumref": "enumname", "macroref": "macroname",
        "headerref": "headername", "conceptref": "conceptname", "globalref": "globalname"}
UNRESERVED_URL = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.~"

def pct(s):
    """partially_escape_uri: characters a URL can't hold are escaped."""
    out = []
    b = s.encode("utf-8", "surrogateescape")
    for i, c in enumerate(b):
        ch = chr(c)
        if ch == "%" and not re.match(rb"%[0-9a-fA-F]{2}", b[i:]):
            out.append("%25")
        elif ch in UNRESERVED_URL or ch in "!*'()?\\/:&=#%+":
            out.append(ch)
        else:
            out.append("%%%02x" % c)
    return "".join(out)

class Gen:
    """One document; `src` is the engine's Source."""
    BASE_PHRASE = {"word": 30, "mid": 8, "alone": 5, "escape": 5, "unicode": 3, "escspace": 2, "comment": 3, "inline": 8, "simple": 8,
                   "code": 4, "role": 2, "brackets": 2}
    BASE_BLOCK = {"para": 10, "heading": 3, "code": 2, "hr": 1, "quote": 2, "admon": 3, "pre": 2, "table": 3, "varlist": 2, "list": 5, "explist": 2,
                  "blurb": 1, "fence": 1}
    def __init__(self, src, ver, phrase=None, block=None):
        self.src, self.ver = src, ver
        self.pw = dict(self.BASE_PHRASE)
        self.bw = dict(self.BASE_BLOCK)
        self.pw.update(phrase or {})
        self.bw.update(block or {})
        if ver < 106:
            self.pw["role"] = self.pw["brackets"] = 0
            self.bw["explist"] = 0
        if ver < 105:
            pass
        self.macros = {}       # name -> nodes
        self.counts = {}
        self.words = WORDS
        self.macro_names = []
        self.templates = {}
        self.seq = 0
        self.footnotes = 0

    def count(self, k):
        self.counts[k] = self.counts.get(k, 0) + 1

    def word(self):
        return self.src.pick(self.words)

    def plain_words(self, lo=1, hi=4, mean=2):
        return " ".join(self.word() for _ in self.src.many(lo, hi, mean))

    # -- phrases -------------------------------------------------------
    def phrase(self, depth=2, lo=1, hi=6, mean=3, one_line=False, ctx="", start=True):
        """Returns (source, nodes).  `ctx` holds flags: 'a' inside template
        arguments (no '..'), 'l' no links, 'f' no footnotes, 's' no simple
        markup, 'w' must start with a word."""
        src = self.src
        out, nodes = "", []
        prev_tight = leading = True
        for i in src.many(lo, hi, mean):
            kind = src.weighted([(w, k) for k, w in self.pw.items() if w and self.allowed(k, depth, ctx, i)])
            s, n, tight = getattr(self, "p_" + kind)(depth, ctx, one_line)
            self.count(kind)
            if i:
                if tight and prev_tight and src.bool(0.25):
                    sep = ""
                elif not one_line and s[:1].isalnum() and src.bool(0.15):
                    sep = "\n"
                else:
                    sep = " " if not src.bool(0.1) else "  "
                if sep == "" and self.clash(out, s):
                    sep = " "
                out += sep
                if start is True or not leading or ("\n" in sep and start != "hard"):
                    nodes.append(sep)
                    leading = False
            elif start is True and not tight and kind in ("alone",):
                # a paragraph must not start with these
                out += "o "
                nodes.append("o ")
            out += s
            nodes += n
            leading = leading and kind == "comment"
            prev_tight = tight
        return out, merge(nodes)

    def clash(self, a, b):
        return False

    def allowed(self, k, depth, ctx, i):
        if depth <= 0 and k in ("inline", "role", "brackets", "link", "footnote", "cond", "tcall", "ref", "url"):
            return False
        if "l" in ctx and k in ("link", "url", "ref"):
            return False
        if "f" in ctx and k == "footnote":
            return False
        if "m" in ctx and k in ("macro", "tcall", "param", "cond"):
            return False
        if k == "macro" and not self.macros:
            return False
        if k == "param" and not getattr(self, "params", None):
            return False
        return True

    def p_word(self, depth, ctx, ol):
        w = self.word()
        return w, [w], True
    def p_mid(self, depth, ctx, ol):
        m = self.src.pick(SAFE_MID)
        a, b = self.word(), self.word()
        if not a[-1:].isascii() and m in "*/_=":
            a += "k"
        w = a + m + b
        return w, [w], True
    def p_alone(self, depth, ctx, ol):
        m = self.src.pick(SAFE_ALONE)
        return m, [m], False
    def p_escape(self, depth, ctx, ol):
        c = self.src.pick(PUNCT)
        # what follows must not be drawn into markup that ends here
        return "\\" + c, [c], False
    def p_unicode(self, depth, ctx, ol):
        src = self.src
        cp = src.pick([0x41, 0x26, 0x3c, 0x3e, 0x22, 0x7f, 0x80, 0xe9, 0x7ff, 0x800, 0xfffd, 0x20ac, 0xd7ff, 0xe000, 0x10000, 0x1f600, 0x10ffff,
                       0x2a, 0x5b, 0x5c, 0x20, 0x9, 0xa, 0x100, 0xf00, 0x6a, 0x79, 0x7a])
        if cp > 0xffff or src.bool(0.3):
            s = "\\U%08x" % cp
        else:
            s = "\\u%04x" % cp
        if src.bool(0.3):
            s = s[:2] + s[2:].upper()
        return s, [chr(cp)], False
    def p_escspace(self, depth, ctx, ol):
        a, b = self.word(), self.word()
        return a + "\\ " + b, [a + b], True
    def p_comment(self, depth, ctx, ol):
        inner = self.src.pick(["", " note", " a [* b] c", "x [nested [deep]] y", "\\", " `tick", " '''", " *b* ", "[/ inner]", " caf\u00e9"])
        if not ol and self.src.bool(0.2):
            inner += "\n more"
        return "[/" + inner + "]", [], False
    def p_inline(self, depth, ctx, ol):
        m = self.src.pick(list(INLINE))
        tag, attrs = INLINE[m]
        s, n = self.phrase(depth - 1, 1, 4, 2, ol, ctx, start=False)
        lead = self.src.pick([" ", "", "  "])
        if lead == "" and s[:1] in "[/*_=":
            lead = " "
        return "[" + m + lead + s + "]", [E(tag, attrs, n)], True
    def p_simple(self, depth, ctx, ol):
        src = self.src
        m = src.pick(list(SIMPLE))
        tag, attrs = SIMPLE[m]
        body = " ".join(src.pick(["alpha", "b<c", "x&y", "d;", "it's", "k", "Lambda", "9"]) for _ in src.many(1, 3, 1.5))
        for w in self.macro_names:
            if body == w:
                body += "k"
        return m + body + m, [E(tag, attrs, [body])], False
    def p_code(self, depth, ctx, ol):
        src = self.src
        body = src.text(["a", "b", "x1", " ", "<", ">", "&", "+", "(", ")", ";", "*", "=", "[", "]", "{", "}", ",", ":", "\\a", "42", "!"], 1, 8, 4)
        if "b" in ctx or True:
            # brackets inside code must not end an enclosing construct early
            depthb = 0
            ok = True
            for c in body:
                depthb += (c == "[") - (c == "]")
                ok = ok and depthb >= 0
            if not ok or depthb:
                body = body.replace("[", "(").replace("]", ")")
        if "a" in ctx:
            body = body.replace("..", ".")
        if body.strip(" ") == "":
            body = "z"
        return "`" + body + "`", [E("code", {}, [body])], True
    def p_role(self, depth, ctx, ol):
        r = t = self.src.pick(["red", "big_1", "k9"])
        if self.ver >= 107 and self.src.bool(0.3):
            t, r = self.src.pick([("a-b", "a-b"), ("a&b", "a&b"), ("<i>", "<i>"), ("a\"b'", "a\"b'"), ("a\\ b", "ab"), ("x\\u00e9", "x\u00e9"), ("\\[\\]\\\\", "[]\\"), ("&amp;", "&amp;")])
        s, n = self.phrase(depth - 1, 1, 3, 2, ol, ctx, start="hard")
        return "[role %s %s]" % (t, s), [E("phrase", {"role": r}, n)], True
    def p_brackets(self, depth, ctx, ol):
        s, n = self.phrase(depth - 1, 1, 3, 2, ol, ctx, start=True)
        # also names that begin with that of an element
        w = self.src.pick(["0", "1x", "99", "h1x", "h44", "notes", "tablex", "linked", "section_", "footnote1", "importer", "classes", "orderedlists", "pre_", "teletype2"])
        return "[%s %s]" % (w, s), ["[%s " % w] + n + ["]"], True
    def p_macro(self, depth, ctx, ol):
        name = self.src.pick(sorted(self.macros))
        return name, list(self.macros[name]), False
    def p_url(self, depth, ctx, ol):
        src = self.src
        u = src.pick(["http://a.b/c", "http://h/?q=1&r=2", "boost:/libs/x", "mailto:a@b.c", "x.html", "../y/z.html#f", "/abs/x.html", "//h/y", "#frag", "a%20b",
                      "http://h/<x>", "http://h/caf\u00e9", "u|v^w", "s\"q"])
        if self.ver < 106 and "/" not in u and False:
            pass
        s_u = u
        if src.bool(0.3):
            s, n = "", []
            body = [pct(u)]
            tail = src.pick(["", " "])
        else:
            s, n = self.phrase(depth - 1, 1, 3, 2, ol, ctx + "lf", start="hard")
            body = n or [pct(u)]
            tail = " " + s
        return "[@" + s_u + tail + "]", [E("ulink", {"url": pct(u)}, body)], True
    def p_link(self, depth, ctx, ol):
        src = self.src
        u = src.pick(["foo.bar", "a_b", "x-y.z", "Q1"])
        if src.bool(0.3):
            tail, body = "", [u]
        else:
            s, n = self.phrase(depth - 1, 1, 3, 2, ol, ctx + "lf", start="hard")
            tail, body = " " + s, n or [u]
        return "[link " + u + tail + "]", [E("link", {"linkend": u}, body)], True
    def p_ref(self, depth, ctx, ol):
        src = self.src
        k = src.pick(sorted(REFS))
        u = src.pick(["boost::foo", "a::b<int>", "f&g", "x"])
        if src.bool(0.3):
            tail, body = "", [u]
        else:
            s, n = self.phrase(depth - 1, 1, 3, 2, ol, ctx + "lf", start="hard")
            tail, body = " " + s, n or [u]
        return "[" + k + " " + u + tail + "]", [E(REFS[k], {"alt": u}, body)], True
    def p_footnote(self, depth, ctx, ol):
        s, n = self.phrase(depth - 1, 1, 3, 2, ol, ctx + "f", start=False)
        self.footnotes += 1
        return "[footnote " + s + "]", [E("footnote", {}, [E("para", {}, n)], info=("id", "f"))], True

    # -- blocks --------------------------------------------------------
    # A block is (source, nodes, closed): `closed` when the next block may
    # follow after a single newline.
    def blocks(self, depth, lo=1, hi=5, mean=2.5, ctx="", inlist=False, nested=False):
        src = self.src
        parts, nodes = [], []
        last = None
        for i in src.many(lo, hi, mean):
            ws = [(w, k) for k, w in self.bw.items() if w and self.block_allowed(k, depth, inlist, nested, last)]
            kind = src.weighted(ws)
            s, n = getattr(self, "b_" + kind)(depth, ctx, inlist, nested)
            self.count("b_" + kind)
            parts.append(s)
            nodes += n
            last = kind
        sep = "\n\n"
        out = ""
        for i, p in enumerate(parts):
            if i:
                out += sep if not src.bool(0.1) else "\n\n\n"
            out += p
        return out, nodes

    def block_allowed(self, k, depth, inlist, nested, last):
        if depth <= 0 and k in ("quote", "admon", "table", "varlist", "list", "explist", "blurb"):
            return False
        if self.ver < 107 and (nested or inlist) and k in ("list", "hr", "code", "heading"):
            return False
        if nested and k == "code":
            return False           # indentation has no meaning there
        if k == "list" and last in ("list", "code"):
            return False
        if k == "code" and last in ("list", "code"):
            return False
        return True

    def p_tag(self, inlist):
        return "simpara" if inlist else "para"

    def b_para(self, depth, ctx, inlist, nested):
        s, n = self.phrase(2, 1, 8, 4, ctx=ctx)
        return self.guard(s, n, inlist)
    def guard(self, s, n, inlist):
        if not (s[:1].isalnum() or s[:1] in "["):
            s, n = "o " + s, ["o "] + n
        if s.startswith("[/") or not text_of(E("x", {}, n)).strip(" \t\n"):
            s, n = "o " + s, ["o "] + n
        return s, [E(self.p_tag(inlist), {}, n)]
    def b_heading(self, depth, ctx, inlist, nested):
        lv = self.src.int(1, 6)
        s, n = self.phrase(1, 1, 4, 2, one_line=True, ctx=ctx + "lf", start=False)
        return "[h%d %s]" % (lv, s), [E("bridgehead", {"renderas": "sect%d" % lv}, n, info=("heading", s))]
    def b_code(self, depth, ctx, inlist, nested):
        src = self.src
        ind = src.int(1, 5)
        lines = []
        for i in src.many(1, 4, 2):
            lines.append(" " * (src.int(0, 3) if i else 0) + self.code_line())
        if len(lines) > 2 and src.bool(0.3):
            lines[1] = ""
        if lines[-1] == "":
            lines[-1] = "k"
        s = "\n".join((" " * ind + l) if l else "" for l in lines)
        return s, [E("programlisting", {}, ["\n".join(lines) + "\n"], info=("code",))]
    def code_line(self):
        src = self.src
        return src.text(["a", "b1", "if", "int ", "x = ", "<", "&", "*", "[q]", "(", ")", ";", " ", "#k", "+", ">"], 1, 8, 4).strip() or "q"
    def b_fence(self, depth, ctx, inlist, nested):
        lines = [self.code_line() for _ in self.src.many(1, 3, 2)]
        f = self.src.pick(["``", "```"])
        if self.ver < 106:
            # an inline form there
            return "o " + f + "\n" + "\n".join(lines) + "\n" + f, [E(self.p_tag(inlist), {}, ["o ", E("programlisting", {}, ["\n".join(lines) + "\n"])])]
        return f + "\n" + "\n".join(lines) + "\n" + f, [E("programlisting", {}, ["\n".join(lines) + "\n"])]
    def b_hr(self, depth, ctx, inlist, nested):
        return "----" + self.src.pick(["", "-", "--- x", " [/ c]", "[/c [d] e]--", " a [/b] c"]), [E("para", {}, [])]
    def inner(self, depth, ctx):
        """The content of a bracketed block."""
        src = self.src
        s, n = self.blocks(depth - 1, 1, 3, 1.5, ctx, nested=True)
        if self.ver >= 107 and (src.bool(0.3) or s[:1] in "*#" or s.startswith("----")):
            s = "\n" + s
        tail = src.pick(["", "\n"])
        if s.split("\n")[-1].startswith((" ", "----")):
            tail = "\n"
        return s, n, tail
    def b_quote(self, depth, ctx, inlist, nested):
        s, n, t = self.inner(depth, ctx)
        return "[: " + s + t + "]", [E("blockquote", {}, n)]
    def b_admon(self, depth, ctx, inlist, nested):
        k = self.src.pick(["note", "tip", "warning", "caution", "important"])
        s, n, t = self.inner(depth, ctx)
        return "[" + k + " " + s + t + "]", [E(k, {}, n)]
    def b_blurb(self, depth, ctx, inlist, nested):
        s, n, t = self.inner(depth, ctx)
        return "[blurb " + s + t + "]", [E("sidebar", {"role": "blurb"}, n)]
    def b_pre(self, depth, ctx, inlist, nested):
        src = self.src
        s, n = "", []
        for i in src.many(1, 4, 2):
            a, b = self.phrase(1, 1, 4, 2, one_line=True, ctx=ctx + "f")
            pad = " " * src.int(0, 3) if i else ""
            if not i and not a[:1].isalnum():
                a, b = "o " + a, ["o "] + b
            s += ("\n" if i else "") + pad + a
            n += (["\n"] if i else []) + [pad] + b
            if i and src.bool(0.2):
                s += "\n"
                n += ["\n"]
        lead = " " if self.ver == 106 or src.bool(0.5) else "\n"
        return "[pre" + lead + s + "]", [E("programlisting", {}, merge(n))]
    def cell(self, depth, ctx, inlist=False):
        src = self.src
        if src.bool(0.12):
            return "[]", []
        if depth > 0 and src.bool(0.2):
            s, n, t = self.inner(depth, ctx)
            return "[" + self.cellguard(s) + t + "]", n
        s, n = self.phrase(1, 1, 4, 2, ctx=ctx)
        s, n = self.guard(s, n, inlist)
        return "[" + self.cellguard(s) + "]", n
    def cellguard(self, s):
        return s if s[:1].isalnum() or s[:1] == "\n" else " " + s
    def rows(self, depth, ctx):
        src = self.src
        ncol = src.int(1, 3)
        rows = []
        for _ in src.many(1, 4, 2):
            rows.append([self.cell(depth - 1, ctx) for _ in range(ncol)])
        return rows, ncol
    def b_table(self, depth, ctx, inlist, nested):
        src = self.src
        rows, ncol = self.rows(depth, ctx)
        title, tn = "", None
        if src.bool(0.6):
            if self.ver >= 106:
                title, tn = self.phrase(1, 1, 3, 2, one_line=True, ctx=ctx + "lf")
                if not text_of(E("x", {}, tn)).strip(" \t\n") or title[:1] in "[:":
                    title, tn = "o " + title, ["o "] + tn
            else:
                title = self.plain_words()
                tn = [title]
        # from 1.6 the title ends where the rows start
        s = "[table" + ((" " + title) if tn else "") + src.pick(["\n", "\n", "\n", "\n", " ", "\n\n"] if self.ver >= 106 else ["\n"])
        for r in rows:
            ind = src.pick(["", "  ", "    "])
            s += ind + "[" + src.pick(["", "", "", " ", "\n" + ind, " [/ c] "]) + src.pick(["", " ", "\n" + ind]).join(c[0] for c in r) + src.pick(["", "", " "]) + "]" + src.pick(["\n", "\n", " "])
        s += "]"
        er = [E("row", {}, [E("entry", {}, c[1]) for c in r]) for r in rows]
        tg = E("tgroup", {"cols": str(ncol)}, [])
        if len(er) > 1:
            tg.kids = [E("thead", {}, [er[0]]), E("tbody", {}, er[1:])]
        else:
            tg.kids = [E("tbody", {}, er)]
        if tn:
            return s, [E("table", {"frame": "all"}, [E("title", {}, tn), tg], info=("table", title))]
        return s, [E("informaltable", {"frame": "all"}, [tg])]
    def b_varlist(self, depth, ctx, inlist, nested):
        src = self.src
        title = self.plain_words() if src.bool(0.7) else ""
        if title and src.bool(0.3):
            title += src.pick([" & x", " <b>", ' "q"', " *e*", " &lt;", " 'a'"])
        s = "[variablelist" + (" " + title if title else "") + "\n"
        kids = [E("title", {}, [title] if title else [])]
        for _ in src.many(1, 3, 1.5):
            ts, tn = self.phrase(1, 1, 3, 1.5, one_line=True, ctx=ctx + "f")
            if ts[:1] in "[/ ":
                ts, tn = "o " + ts, ["o "] + tn
            defs = [self.cell(depth - 1, ctx) for _ in src.many(1, 2, 1.2)]
            s += "  [[" + ts + "]" + "".join(d[0] for d in defs) + "]\n"
            kids.append(E("varlistentry", {}, [E("term", {}, tn), E("listitem", {}, [x for d in defs for x in d[1]])]))
        return s + "]", [E("variablelist", {}, kids)]
    def b_explist(self, depth, ctx, inlist, nested):
        src = self.src
        k = src.pick(["ordered_list", "itemized_list"])
        tag = "orderedlist" if k[0] == "o" else "itemizedlist"
        items = []
        for _ in src.many(1, 3, 2):
            # content of an explicit list's cell is list paragraphs
            s, n = self.phrase(1, 1, 4, 2, ctx=ctx)
            s, n = self.guard(s, n, True)
            if self.src.bool(0.2):
                s2, n2 = self.phrase(1, 1, 3, 2, ctx=ctx)
                s2, n2 = self.guard(s2, n2, True)
                s, n = s + "\n\n" + s2, n + n2
            items.append((self.cellguard(s), n))
        sep = src.pick(["", " ", "\n  "])
        return "[" + k + " " + sep.join("[" + s + "]" for s, _ in items) + "]", [E(tag, {}, [E("listitem", {}, n) for _, n in items])]
    def b_list(self, depth, ctx, inlist, nested):
        s, n = self.list_at(depth, ctx, 0 if not inlist else 0)
        return s, [n]
    def list_at(self, depth, ctx, col):
        """A list whose markers stand at column `col`."""
        src = self.src
        mark = src.pick("*#")
        tag = "itemizedlist" if mark == "*" else "orderedlist"
        gap = src.int(1, 3)
        col2 = col + 1 + gap
        lines, items = [], []
        for _ in src.many(1, 4, 2):
            s, n = self.phrase(1, 1, 5, 3, ctx=ctx + "I")
            s, n = self.guard(s, n, True)
            first = n[0]
            t = " " * col + mark + " " * gap + s.replace("\n", "\n" + " " * src.int(0, col2))
            kids = [first]
            cur = first
            more = src.many(0, 2, 0.5)
            for _ in more:
                r = src.weighted([(4, "nest"), (3, "para"), (2, "code"), (2, "block")])
                if r == "nest" and depth > 0:
                    ls, ln = self.list_at(depth - 1, ctx, src.int(col + 1, col2) if kids[-1].tag == "programlisting" else col + src.int(1, 4))
                    blank = src.bool(0.3)
                    if cur is not first:
                        kids.append(E("simpara", {}, [ln]))
                        t += "\n\n" + ls
                    else:
                        # a nested list stays in the paragraph it follows
                        cur.kids = cur.kids + [ln]
                        t += ("\n\n" if blank else "\n") + ls
                    self.count("nested list")
                    # what follows must leave the nested list
                    break
                if self.ver < 107:
                    continue
                if r == "para":
                    s2, n2 = self.phrase(1, 1, 4, 2, ctx=ctx + "I")
                    s2, n2 = self.guard(s2, n2, True)
                    t += "\n\n" + " " * col2 + s2.replace("\n", "\n" + " " * col2)
                    kids += n2
                    cur = n2[0]
                    self.count("list paragraph")
                elif r == "code" and depth > 0 and not (kids[-1].tag == "programlisting"):
                    l = self.code_line()
                    if l[0] in "*#":
                        l = "q" + l
                    t += "\n\n" + " " * (col2 + 2) + l
                    kids.append(E("programlisting", {}, [l + "\n"]))
                    cur = None
                    self.count("list code")
                elif r == "block" and depth > 0:
                    k = src.pick(["note", "tip"])
                    s2, n2 = self.phrase(1, 1, 4, 2, ctx=ctx)
                    s2, n2 = self.guard(s2, n2, False)
                    t += "\n\n" + " " * col2 + "[" + k + " " + s2.replace("\n", "\n" + " " * col2) + "]"
                    kids.append(E(k, {}, n2))
                    cur = None
                    self.count("list block")
            lines.append(t)
            items.append(E("listitem", {}, kids))
        out = ""
        for i, t in enumerate(lines):
            if i:
                out += "\n\n" if src.bool(0.2) else "\n"
            out += t
        return out, E(tag, {}, items)

VERSIONS = [107, 106, 105, 104, 103, 101]

def header(ver, doc="article", title="T", extra=""):
    return "[quickbook 1.%d]\n[%s %s%s]\n\n" % (ver - 100, doc, title, extra)

INFO_TAGS = set("""articleinfo bookinfo chapterinfo partinfo appendixinfo prefaceinfo qandadivinfo qandasetinfo referenceinfo setinfo
author authorgroup copyright legalnotice""".split())

def body_of(root):
    """The children after the document info and title."""
    out = []
    for k in root.kids:
        if isinstance(k, E):
            if k.tag.endswith("info") or k.tag == "title" and not out:
                continue
            if root.tag == "library" and k.tag in ("libraryinfo", "title"):
                continue
        elif not k.strip(" \r\n\t"):
            continue
        out.append(k)
    return out
