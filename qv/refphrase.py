"""A reference reader for the phrase level of quickbook, written from the
documentation and the grammar: escapes, comments, inline elements, simple
markup, inline code, brackets.  Covers text made of the characters its
callers use; templates, macros and other elements are outside its domain."""
import re
from .docgen import INLINE, SIMPLE
from .xmltree import E, merge

class Bad(Exception):
    """The document is in error."""

class Unsure(Exception):
    """Outside the domain of the reference reader."""

HARD = re.compile(r"\n[ \t]*\n")

def graph(c): return "\x21" <= c <= "\x7e"
def space(c): return c in " \t\n\r\v\f"
def punct(c): return "\x21" <= c <= "\x7e" and not c.isalnum()

class Ref:
    def __init__(self, text, ver, macros=None):
        self.t, self.v = text, ver
        self.macros = {} if macros is None else macros   # name -> nodes
        self.conditional = True
        self.uses = 0
        self.raws = []
        self.n = len(text)
        self.errors = 0
        self.steps = 0
        self.memo = {}

    def at(self, i):
        return self.t[i] if 0 <= i < self.n else ""

    def macro(self, i, follow=True):
        """The longest macro name at i, if it is one in force there."""
        best = None
        for m in self.macros:
            if self.t.startswith(m, i) and (best is None or len(m) > len(best)):
                best = m
        if best is None:
            return None
        nx = self.at(i + len(best))
        if follow and nx and ((nx.isascii() and nx.isalpha()) or nx == "_"):
            return None
        return best

    def macro_identifier(self, i):
        stop = "[\\]" if self.v >= 106 else "]"
        j = i
        while j < self.n and not space(self.t[j]) and self.t[j] not in stop:
            j += 1
        return j

    def cond(self, i):
        """[? m ..] and [?! m ..] at i."""
        j = i + 2
        neg = False
        if self.v >= 107 and self.at(j) == "!":
            neg = True
            j += 1
        j = self.blank(j)
        k = self.macro_identifier(j)
        if k == j:
            return None
        keep = (self.t[j:k] in self.macros) != neg
        saved = self.conditional
        self.conditional = saved and keep
        try:
            k, kids = self.phrase(k)
        finally:
            kept = self.conditional
            self.conditional = saved
        k = self.skip_space(k)
        if self.at(k) != "]":
            if self.v >= 107:
                raise Bad()
            raise Unsure()
        return k + 1, (kids if kept else [])

    def define(self, i):
        """[def m ..] at i; returns the position after it."""
        m = re.compile(r"\[\s*def(?![A-Za-z0-9_])").match(self.t, i)
        j = self.skip_space(m.end())
        k = self.macro_identifier(j)
        if k == j:
            raise Unsure()
        name = self.t[j:k]
        k = self.blank(k)
        k, kids = self.phrase(k)
        k = self.skip_space(k)
        if self.at(k) != "]":
            raise Unsure()
        if self.conditional and not (self.v < 106 and name in self.macros):
            self.macros[name] = merge(kids)
        return k + 1

    def phrase_end(self, i):
        return self.at(i) == "]" or HARD.match(self.t, i) is not None

    def dummy(self, i):
        """End of a balanced [..] inside a comment, or -1."""
        if i in self.memo:
            return self.memo[i]
        j = i + 1
        while j < self.n:
            if self.t[j] == "[":
                k = self.dummy(j)
                j = k if k >= 0 else j + 1
            elif self.t[j] == "]":
                break
            else:
                j += 1
        r = j + 1 if j < self.n else -1
        self.memo[i] = r
        return r

    def comment(self, i):
        if not self.t.startswith("[/", i):
            return -1
        j = i + 2
        while j < self.n and self.t[j] != "]":
            k = self.dummy(j) if self.t[j] == "[" else -1
            j = k if k >= 0 else j + 1
        return j + 1 if j < self.n else -1

    def blank(self, i):
        while True:
            if self.at(i) in (" ", "\t"):
                i += 1
                continue
            k = self.comment(i)
            if k < 0:
                return i
            i = k

    def skip_space(self, i):
        while True:
            if i < self.n and space(self.t[i]):
                i += 1
                continue
            k = self.comment(i)
            if k < 0:
                return i
            i = k

    def phrase(self, i):
        out = []
        while i < self.n and not self.phrase_end(i):
            i, n = self.common(i)
            out += n
        return i, out

    def simple(self, i):
        m = self.t[i]
        if i + 1 >= self.n or not graph(self.t[i + 1]):
            return None
        p = self.at(i - 1)
        if p == m or not (p == "" or space(p) or punct(p)):
            return None
        name = self.macro(i + 1, False)
        if name is not None:
            j = i + 1 + len(name)
            nx = self.at(j + 1)
            if self.at(j) == m and graph(name[-1]) and nx != m and (nx == "" or space(nx) or punct(nx)):
                self.uses += 1
                tag, attrs = SIMPLE[m]
                return j + 1, [E(tag, attrs, self.macros[name])]
            if self.at(j) in ("[", "`") or self.t.startswith("'''", j) or self.phrase_end(j):
                return None
        if self.t[i + 1] == m:
            return None
        j = i + 1
        while j < self.n:
            c = self.t[j]
            if c in "[`" or self.t.startswith("'''", j) or self.phrase_end(j):
                return None
            if c == m and self.t[j - 1] != m and graph(self.t[j - 1]) and j > i + 1:
                nx = self.at(j + 1)
                if nx != m and (nx == "" or space(nx) or punct(nx)):
                    tag, attrs = SIMPLE[m]
                    return j + 1, [E(tag, attrs, [self.t[i + 1:j]])]
            j += 1
        return None

    def common(self, i):
        self.steps += 1
        if self.steps > 5000:
            raise RecursionError()
        t = self.t
        c = t[i]
        if self.macros:
            name = self.macro(i)
            if name is not None:
                self.uses += 1
                return i + len(name), list(self.macros[name])
        if c == "[" and self.at(i + 1) == "?":
            r = self.cond(i)
            if r:
                return r
        if c == "[" and t.startswith("[def ", i):
            return self.define(i), []
        if c == "[":
            m = self.at(i + 1)
            if m in INLINE:
                j = self.blank(i + 2)
                j, kids = self.phrase(j)
                j = self.skip_space(j)
                if self.at(j) == "]":
                    tag, attrs = INLINE[m]
                    return j + 1, [E(tag, attrs, merge(kids))]
                if self.v >= 107:
                    raise Bad()
        if c == "`":
            j = i + 1
            while j < self.n and t[j] != "`" and not HARD.match(t, j):
                j += 1
            if self.at(j) == "`":
                return j + 1, [E("code", {}, [t[i + 1:j]])]
        if c in SIMPLE:
            r = self.simple(i)
            if r:
                return r
        if t.startswith("'''", i):
            j = self.blank(i + 3)
            j = j + 1 if self.at(j) == "\n" else i + 3
            k = t.find("'''", j)
            if k < 0:
                raise Bad()
            self.raws.append(t[j:k])
            return k + 3, [t[j:k]]
        if c == "\\":
            d = self.at(i + 1)
            if d == " ":
                return i + 2, []
            if d and punct(d):
                return i + 2, [d]
            mm = re.compile(r"\\u([0-9a-fA-F]{4})|\\U([0-9a-fA-F]{8})").match(t, i)
            if mm:
                return mm.end(), [chr(int(mm.group(1) or mm.group(2), 16))]
        if c == "[":
            k = self.comment(i)
            if k >= 0:
                return k, []
        if self.v >= 106:
            if c == "[":
                j, kids = self.phrase(i + 1)
                if self.at(j) == "]":
                    return j + 1, ["["] + kids + ["]"]
                raise Bad()
            if c == "]":
                raise Bad()
        return i + 1, [c]

    def document(self):
        """The paragraphs of the text; raises Bad when it is in error."""
        paras, cur = [], []
        i = 0
        SEP = re.compile(r"\n(?=[ \t]*(\n|$))")
        while i < self.n:
            m = SEP.match(self.t, i)
            if m:
                i = m.end()
                while True:
                    k = self.blank(i)
                    if self.at(k) == "\n":
                        i = k + 1
                    else:
                        break
                if "".join(x if isinstance(x, str) else "x" for x in cur).strip(" \t\n"):
                    paras.append(E("para", {}, merge(cur)))
                cur = []
                continue
            if self.t[i] == "]" and self.v >= 107:
                raise Bad()
            i, n = self.common(i)
            cur += n
        if cur:
            paras.append(E("para", {}, merge(cur)))
        return paras
