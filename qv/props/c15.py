"""C15 Positions of diagnostics and of mapped text."""
import re
from ..engine import Family, Fail, Discard
from ..driver import pack

def linecol(t, off):
    """Line and column of an offset in LF text (bytes)."""
    line = t.count(b"\n", 0, off) + 1
    return line, off - (t.rfind(b"\n", 0, off) + 1) + 1

# -- plain positions ------------------------------------------------------
def f_position(src, env):
    t = src.bytes(0, 40, 14, alphabet=[b"\n", b"a", b"\r", b"\n\r", b"\r\n", b"\t", b"\n\n", "é".encode(), b" ", b"b"])
    offs = list(range(len(t) + 1))
    got = env.unit("relative_position", t, *offs)
    fpos = env.unit("position_of", t, *offs)
    src.key = t
    src.sample = repr(t)
    src.nontrivial = t.count(b"\n") > 0 and len(t) > 3
    # CR ends a line, LF ends a line, and a CR directly after a LF belongs to
    # that same line end.
    line, start = 1, 0
    i = 0
    want = {}
    while i <= len(t):
        want[i] = (line, i - start + 1)
        if i == len(t):
            break
        c = t[i:i + 1]
        if c == b"\r":
            line += 1
            start = i + 1
        elif c == b"\n":
            line += 1
            start = i + 1
            if t[i + 1:i + 2] == b"\r":
                want[i + 1] = (line, 1)
                i += 1
                start = i + 1
        i += 1
    for o in offs:
        w = "%d:%d" % want[o]
        if got[o].decode() != w or fpos[o].decode() != w:
            raise Fail("position of offset %d of %r is %s / %s, expected %s" % (o, t, got[o].decode(), fpos[o].decode(), w))

# -- a model of unindenting -----------------------------------------------
def width(ws):
    n = 0
    for c in ws:
        n = n + 1 if c == 32 else n - n % 4 + 4
    return n

def unindent(p):
    """-> (text, origins) where origins[i] is the offset in p the character
    comes from, or None for white space that was made or moved."""
    m = re.match(rb"[ \t\n]*", p)
    first = m.end()
    if first == len(p):
        return b"", []
    start = p.rfind(b"\n", 0, first) + 1
    lines, pos = [], start
    for l in p[start:].split(b"\n"):
        ws = len(re.match(rb"[ \t]*", l).group())
        lines.append((pos, l, ws))
        pos += len(l) + 1
    code = [(l, ws) for _, l, ws in lines if ws < len(l)]
    n = min(ws for _, ws in code)
    cols = min(width(l[:ws]) for l, ws in code)
    head = code[0][0][:n]
    # (white space at the very end is not a line of its own)
    mixed = any(l[:n] != head for i, (_, l, ws) in enumerate(lines)
                if ws >= n and (ws < len(l) or i < len(lines) - 1))
    out, orig = bytearray(), []
    for k, (pos, l, ws) in enumerate(lines):
        if k:
            out += b"\n"
            orig.append(pos - 1)
        if mixed:
            extra = max(0, width(l[:ws]) - cols)
            out += b" " * extra
            orig += [None] * extra
            out += l[ws:]
            orig += range(pos + ws, pos + len(l))
        else:
            cut = min(n, ws)
            out += l[cut:]
            orig += [None] * (ws - cut)
            orig += range(pos + ws, pos + len(l))
    return bytes(out), orig

CODE = [b"a", b"\n", b"    ", b"  ", b"\t", b"b c", b"\n\n", b"x\n    y", b"{\n", b"\n  ", b"   ", b" ", b"\n\t", b"}"]

# -- mapped files -----------------------------------------------------------
def f_mapped(src, env):
    """Builders as snippets use them: pieces of one original file, literals,
    unindented pieces, copies of ranges of another builder."""
    t = src.bytes(1, 30, 10, alphabet=CODE)
    ops, expect, trace = [], [], []
    files = [{"text": t, "orig": None, "base": None, "exact": [True] * (len(t) + 1)}]
    builders = [None] * 4
    def emit(name, b, *a):
        ops.append(pack(name, b, *a))
        trace.append((name, b) + a)
    def loc(fi, off):
        """(line, column, exact) of an offset of a file."""
        f = files[fi]
        if f["base"] is None:
            l, c = linecol(f["text"], off)
            return l, c, True
        o, ex = f["orig"][off]
        l, c, e2 = loc(f["base"], o)
        return l, c, ex and e2
    def some_range(n):
        a = src.draw(n)
        return a, src.draw(n - a)
    nontriv = False
    for _ in src.many(2, 16, 9):
        started = [i for i, x in enumerate(builders) if x]
        k = src.weighted([(4, "add"), (2, "lit"), (3, "unindent"), (2, "start"), (2, "release"), (3, "copy"), (1, "info"), (1, "clear")])
        if not started or k == "start":
            free = [i for i, x in enumerate(builders) if not x]
            if not free:
                continue
            b = src.pick(free)
            f = src.draw(len(files) - 1) if src.bool(0.3) else 0
            builders[b] = {"file": f, "text": bytearray(), "orig": [], "cuts": {0}}
            emit("start", b, f)
            continue
        b = src.pick(started)
        B = builders[b]
        base = files[B["file"]]["text"]
        B["cuts"].add(len(B["text"]))
        if k == "add":
            a, n = some_range(len(base))
            emit("add", b, B["file"], a, n)
            B["text"] += base[a:a + n]
            B["orig"] += [(a + i, True) for i in range(n)]
            B["end"] = (a + n, True)
        elif k == "lit":
            s = src.pick([b"\n\n", b"[c++]", b"```\n", b"\n", b"\n```\n\n"])
            a = src.draw(len(base))
            emit("lit", b, B["file"], a, s)
            B["text"] += s
            B["orig"] += [(a, True)] * len(s)
            B["end"] = (a, True)
        elif k == "unindent":
            a, n = some_range(len(base))
            emit("unindent", b, B["file"], a, n)
            u, o = unindent(base[a:a + n])
            B["text"] += u
            # white space is mapped somewhere into the white space of its line
            for i, x in enumerate(o):
                if x is None:
                    j = i
                    while j < len(o) and o[j] is None:
                        j += 1
                    y = a + o[j] if j < len(o) else a + n
                    B["orig"].append((min(y, len(base)), False))
                else:
                    B["orig"].append((a + x, True))
            if u:
                B["end"] = None
            nontriv = True
        elif k == "copy":
            others = [i for i in started if i != b and builders[i]["file"] == B["file"] and builders[i]["text"]]
            if not others:
                continue
            o = src.pick(others)
            O = builders[o]
            n = len(O["text"])
            if src.bool(0.4):
                emit("addb", b, o)
                x, y = 0, n
            else:
                # from where a piece begins, as nested snippets do
                x = src.pick([c for c in sorted(O["cuts"]) if c <= n])
                y = x + src.draw(n - x) if src.bool(0.4) else n
                emit("addbr", b, o, x, y)
            if x != y:
                B["text"] += O["text"][x:y]
                B["orig"] += O["orig"][x:y]
                B["end"] = None
                nontriv = True
        elif k == "release":
            emit("release", b)
            files.append({"text": bytes(B["text"]), "orig": B["orig"] + [B.get("end") or (0, None)],
                          "base": B["file"]})
            expect.append(("text", bytes(B["text"])))
            builders[b] = None
            emit("meta", 0, len(files) - 1)
            expect.append(("meta", None))
        elif k == "info":
            emit("info", b)
            expect.append(("info", "%d%s" % (len(B["text"]), "n" if B["text"] else "e")))
        else:
            emit("clear", b)
            builders[b] = None
    for b in [i for i, x in enumerate(builders) if x]:
        B = builders[b]
        emit("release", b)
        files.append({"text": bytes(B["text"]), "orig": B["orig"] + [B.get("end") or (0, None)], "base": B["file"]})
        expect.append(("text", bytes(B["text"])))
    # white space from unindenting has no exact column, so only exact
    # characters may be asked for through a second mapping.
    def askable(fi, off):
        f = files[fi]
        if f["base"] is None:
            return off <= len(f["text"])
        if off >= len(f["orig"]):
            return False
        o, ex = f["orig"][off]
        if ex is None:
            return False
        b0 = files[f["base"]]
        if b0["base"] is None:
            return True
        return ex and askable(f["base"], o)
    for fi in range(1, len(files)):
        n = len(files[fi]["text"])
        for off in (range(n + 1) if n <= 40 else sorted(set(src.draw(n) for _ in range(25)))):
            if askable(fi, off):
                emit("pos", 0, fi, off)
                expect.append(("pos", fi, off))
    r = env.unit("mapped", t, *ops)
    src.key = repr((t, trace))
    src.sample = "original %r, operations %s" % (t, trace[:30])
    src.nontrivial = nontriv
    if not isinstance(r, list):
        raise Fail("mapped file builder threw %r\n%r %r" % (r, t, trace))
    for e, got in zip(expect, r):
        if e[0] == "text":
            if got != e[1]:
                raise Fail("mapped text is %r, expected %r\noriginal %r operations %r" % (got, e[1], t, trace))
        elif e[0] == "info":
            if got.decode() != e[1]:
                raise Fail("get_pos/empty say %r, expected %r\n%r %r" % (got, e[1], t, trace))
        elif e[0] == "meta":
            if got != b"src/105":
                raise Fail("a mapped file has path and version %r" % got)
        else:
            l, c, ex = loc(e[1], e[2])
            gl, gc = map(int, got.decode().split(":"))
            if gl != l or (ex and gc != c):
                raise Fail("offset %d of mapped file %d (%r) is at %d:%d, expected %d:%d%s\noriginal %r operations %r" % (
                    e[2], e[1], files[e[1]]["text"], gl, gc, l, c, "" if ex else " (column free)", t, trace))

# -- diagnostics of whole documents -----------------------------------------
MARK = 0xE000

class Diag:
    """Documents whose problems are known.  A problem is marked in the source
    by a private character just before the place it should be reported at,
    which is taken out again once the files are complete."""
    def __init__(self, src, ver):
        self.src, self.ver = src, ver
        self.kinds = []         # problem -> (message, error?, shows the column)
        self.seen = []          # the problems met, in the order of evaluation
        self.errors = 0
        self.off = 0            # > 0 where text is not evaluated
        self.files = {}
        self.temps = []
        self.n = 0
        self.sections = 0
        self.recording = None
        self.inc = 0
    def mark(self, msg, error=True):
        self.kinds.append((msg, error))
        return chr(MARK + len(self.kinds) - 1), len(self.kinds) - 1
    def meet(self, k):
        if self.off:
            return
        if self.recording is not None:
            self.recording.append(k)
        else:
            self.seen.append(k)
            self.errors += self.kinds[k][1]
    def problem(self, inline=True):
        """A phrase with a problem."""
        src = self.src
        p = src.weighted([(3, "uni"), (2, "attr"), (1, "dup"), (3, "args"), (4, "code"), (2, "id"), (1, "idw")])
        src.label(p)
        if p == "uni":
            m, k = self.mark("Invalid unicode character: D8")
            out = "\\u" + m + "d8%02x" % src.int(0, 99)
        elif p == "attr":
            m, k = self.mark("Invalid image attribute name: '1bogus'")
            out = "[$i.png [" + m + "1bogus v]]"
        elif p == "dup":
            m, k = self.mark("Duplicate image attribute: width", False)
            out = "[$i.png [width 1]" + src.pick(["", " ", "\n" if inline else ""]) + "[" + m + "width 2]]"
        elif p == "args":
            m, k = self.mark("Invalid number of arguments passed. Expecting: 2 argument(s), got: 3 argument(s) instead.")
            out = "[" + m + "two a..b..c]"
        elif p == "id" and self.ver >= 107:
            m, k = self.mark("Invalid id: b")
            out = "[#" + m + "b!%d]" % len(self.kinds)
        elif p == "idw":
            # ids are empty
            return self.word()
        else:
            out = "`x "
            for _ in src.many(1, 3, 1.5):
                m, k = self.mark("in column:%d, unexpected character: @", False)
                out += src.pick(["", "y ", "7 "]) + m + "@"
                self.meet(k)
            return out + "`"
        self.meet(k)
        return out
    def word(self):
        self.n += 1
        return "w%d" % self.n
    def gap(self):
        return self.src.weighted([(8, " "), (4, "\n"), (1, " [/ c] "), (1, " [/ c\n\n c] "), (1, "\n  "), (1, "\t")])
    def phrase(self, depth=0, lo=1, one_line=False, nocall=False):
        src = self.src
        out = ""
        gap = (lambda: " ") if one_line else self.gap
        for i in src.many(lo, 5, 2.5):
            if out:
                g = gap()
                out += " " if g == "\n  " and out[0] != "w" else g
            k = src.weighted([(8, "word"), (4, "problem"), (3 if depth < 3 else 0, "inline"), (2 if depth < 3 else 0, "cond"), (3 if self.temps and not nocall else 0, "call"),
                              (2 if depth < 2 and not nocall else 0, "arg"), (1, "esc")])
            if k == "word" or i == 0 and not out and k in ("esc",):
                out += self.word()
            elif k == "problem":
                out += self.problem(not one_line)
            elif k == "inline":
                out += "[" + src.pick("*'_~") + " " + self.phrase(depth + 1, 1, one_line, nocall) + "]"
            elif k == "cond":
                on = src.bool(0.7)
                self.off += not on
                out += "[?%s %s]" % ("yes" if on else "no", self.phrase(depth + 1, 1, one_line, nocall))
                self.off -= not on
            elif k == "call":
                name, body = src.pick(self.temps)
                out += "[%s]" % name
                for b in body: self.meet(b)
            elif k == "arg":
                # the argument is translated where the template uses it
                uses = src.int(0, 2)
                saved, self.recording = self.recording, []
                inner = self.phrase(depth + 1, 1, one_line, True)
                rec, self.recording = self.recording, saved
                for _ in range(uses):
                    for b in rec: self.meet(b)
                out += "[use%d %s]" % (uses, inner)
            else:
                out += "'''<!-- x -->'''"
        return out
    def template(self):
        name = "t%d" % (len(self.temps) + 1)
        src = self.src
        saved, self.recording = self.recording, []
        block = src.bool(0.3)
        body = self.phrase(0, 1)
        off = self.off
        rec, self.recording = self.recording, saved
        self.temps = self.temps + [(name, rec)] if not self.off else self.temps
        return "[template %s[]%s%s]\n" % (name, src.pick([" ", "", "  "]), body)
    def code_lines(self, ind):
        src = self.src
        out = ""
        for _ in src.many(1, 4, 2):
            out += ind + src.pick(["", "", "  ", "\t"])
            for _ in src.many(0, 3, 1):
                m, k = self.mark("in column:%d, unexpected character: @", False)
                out += src.pick(["a ", "", "b; ", "\"s\" "]) + m + "@"
                self.meet(k)
            out += src.pick(["", " c;"]) if out[-1:] not in " \t" else "d;"
            out += src.pick(["\n", "\n", "\n", "\n\n"])
        return out
    def block(self, depth):
        src = self.src
        top = not depth or self.ver >= 107
        k = src.weighted([(6, "para"), (3, "code"), (2, "fence"), (2, "list"), (2 if depth < 2 else 0, "note"), (2, "table"), (2, "heading"), (2 if not depth else 0, "template"),
                          (1 if not depth else 0, "def"), (1 if top else 0, "endsect"), (2 if top else 0, "section"), (1 if top else 0, "missing"), (1 if top else 0, "redef"), (2 if len(self.files) < 3 and not depth else 0, "include"),
                          (2 if len(self.files) < 3 and not depth else 0, "import"), (1, "comment")])
        src.label(k)
        if k == "para":
            return self.phrase() + "\n\n"
        if k == "code" and not depth:
            return "    z;\n" + self.code_lines("    ") + "\n" + self.word() + "\n\n"
        if k in ("code", "fence"):
            return "```\n" + self.code_lines(src.pick(["", "  "])) + "```\n\n"
        if k == "list" and depth:
            return self.phrase() + "\n\n"
        if k == "list":
            out = ""
            for _ in src.many(1, 3, 2):
                out += "* " + self.word() + " " + self.phrase(2, 1, True) + "\n"
            return "\n" + out + "\n" + self.word() + "\n\n"
        if k == "note":
            return "[" + src.pick(["note", "tip", "blurb", ":"]) + src.pick([" ", "\n", "\n\n"]) + self.blocks(depth + 1).rstrip("\n") + src.pick(["", "\n", "\n\n"]) + "]\n\n"
        if k == "table":
            out = "[table " + (self.word() + " " + self.problem(False) if self.ver >= 106 and src.bool(0.3) else self.word()) + "\n"
            for _ in src.many(1, 3, 1.5):
                out += "[" + "".join("[" + self.phrase(1) + "]" + src.pick(["", " ", "\n"]) for _ in range(2)) + "]\n"
            return out + "]\n\n"
        if k == "heading":
            return "[" + src.pick(["heading", "h1", "h3"]) + " " + self.word() + " " + self.phrase(2, 1, True) + "]\n\n"
        if k == "template":
            return self.template() + "\n"
        if k == "def":
            return "[def m%d %s]\n\n" % (self.n, self.phrase(2, 1, True))
        if k == "endsect" and not self.sections:
            m, e = self.mark("Mismatched [endsect] near column")
            self.meet(e)
            return "[endsect" + m + "]\n\n"
        if k == "section":
            self.sections += 1
            self.n += 1
            here = self.n
            out = "[section:s%d %s]\n\n" % (here, self.word())
            out += self.phrase() + "\n\n"
            if src.bool(0.3) and self.ver >= 106:
                m, e = self.mark("Endsect has incorrect id 'e%d', expected 's%d', near column" % (here, here))
                self.meet(e)
                out += "[endsect:e%d" % here + m + "]\n\n"
            else:
                out += "[endsect]\n\n"
            self.sections -= 1
            return out
        if k == "missing":
            m, e = self.mark("Unable to find file: nofile.qbk" if self.ver >= 106 else "Unable to find file: nofile.qbk")
            self.meet(e)
            return "[" + m + "include nofile.qbk]\n\n"
        if k == "redef" and not self.inc:
            m, e = self.mark("Template Redefinition: two", True)
            self.meet(e)
            return "[template two[a b]" + m + " x]\n\n"
        if k == "include" :
            name = "i%d.qbk" % len(self.files)
            self.files[name] = ""
            dead = self.errors > 0
            self.inc += 1
            self.off += dead
            temps, sect = self.temps, self.sections
            self.sections = 0
            own = src.bool(0.4)
            text = "[quickbook 1.%d]\n[article I]\n\n" % (self.ver - 100) if own else ""
            text += src.pick(["", "\n", "\n\n\n", "[/ c\n]\n"]) + self.blocks(0) + self.word() + "\n"
            self.files[name] = text
            self.off -= dead
            self.inc -= 1
            self.sections = sect
            if self.ver >= 106 or dead:
                self.temps = temps
            return "[include " + name + "]\n\n"
        if k == "import" and self.recording is None:
            return self.snippets()
        if k == "comment":
            return "[/ " + self.word() + "\n\n[" + self.word() + "]]\n\n"
        return self.word() + "\n\n"
    def snippets(self):
        src = self.src
        name = "x%d.cpp" % len(self.files)
        self.files[name] = ""
        text = "int before;\n" if src.bool() else ""
        out = "[import %s]\n\n" % name
        saved, self.recording = self.recording, []
        for _ in src.many(1, 2, 1.5):
            self.recording = []
            self.n += 1
            sn = "sn%d" % self.n
            ind = src.pick(["", "", "    ", "\t"])
            text += ind + "//[" + sn + "\n"
            for _ in src.many(1, 4, 2):
                k = src.pick(["code", "line", "block", "ignore", "pass"])
                src.label("snippet " + k)
                if k == "code":
                    text += self.code_lines(ind)
                elif k == "line":
                    text += ind + "//`" + src.pick(["", " ", "  "]) + self.word() + " " + self.phrase(2, 1, True, True) + "\n\n" + ind + "int c;\n"
                elif k == "block":
                    text += ind + "/*`" + src.pick(["\n", "\n\n", " \n"]) + ind + "  " + self.word() + "\n" + ind + "  " + self.word() + " " + self.phrase(2, 1, True, True) + "\n\n"
                    text += ind + "  " + self.word() + " " + self.problem(False) + "*/\n"
                elif k == "ignore":
                    text += ind + "//<-\n" + ind + "int @;\n" + ind + "//->\n"
                else:
                    m, e = self.mark("in column:%d, unexpected character: @", False)
                    self.meet(e)
                    text += ind + "//=q " + m + "@;\n"
            text += ind + "//]\n"
            text += src.pick(["", "int between;\n", "\n\n"])
            rec, self.recording = self.recording, saved
            for _ in range(src.int(0, 2)):
                out += "[%s]\n\n" % sn
                for b in rec: self.meet(b)
        self.recording = saved
        self.files[name] = text
        return out
    def blocks(self, depth):
        return "".join(self.block(depth) for _ in self.src.many(1, 6, 3))

def f_diag(src, env):
    ver = src.pick([107, 107, 106, 106, 105])
    d = Diag(src, ver)
    extra = src.pick(["", "\n[version 1]\n", "\n\n"])
    doc = src.pick(["", "\n", "\n\n", "[/ c\nd]\n"]) + "[article T\n[quickbook 1.%d]%s]\n" % (ver - 100, extra)
    doc += "[template two[a b] x]\n[template use0[a] x]\n[template use1[a] [a]]\n[template use2[a] [a] [a]]\n[def yes 1]\n\n"
    doc += d.blocks(0) + d.word() + "\n"
    d.files["m.qbk"] = doc
    where, files = {}, {}
    newline = src.pick(["\n", "\n", "\r\n", "\r"])
    for name, text in d.files.items():
        out, line, col = [], 1, 1
        for c in text:
            k = ord(c) - MARK
            if 0 <= k < len(d.kinds):
                where[k] = (name, line, col)
                continue
            out.append(c)
            if c == "\n":
                line, col = line + 1, 1
            else:
                col += len(c.encode())
        files[name] = ("\ufeff" if src.bool(0.2) else "") + "".join(out).replace("\n", newline)
    want = {}
    for k in d.seen:
        name, line, col = where[k]
        msg, error = d.kinds[k]
        if msg.startswith("Template Redef"):
            error = False
        key = "%s:%d: %s: %s" % (name, line, "error" if error else "warning", msg % col if "%d" in msg else msg)
        want[key] = want.get(key, 0) + 1
    src.key = repr(files)
    src.sample = "\n".join("----- %s\n%s" % (k, v.replace("\r\n", "\n").replace("\r", "\n")) for k, v in files.items())
    src.nontrivial = len(want) > 1
    if len(set(k.split(":")[0] for k in want)) > 1: src.label("several files")
    if newline != "\n": src.label("other newlines")
    ms = src.bool(0.15)
    res = env.run(files, ["m.qbk", "--output-file", "o.xml", "--no-pretty-print"] + ["--ms-errors"] * ms)
    if res.kind != "exit" or res.code not in (0, 1):
        raise Fail("the run failed\n%s\n%s" % (src.sample, res.describe()))
    got = {}
    for l in res.err.decode("utf-8", "replace").split("\n"):
        if ms:
            l = re.sub(r"^(\S+\.(?:qbk|cpp))\((\d+)\):", r"\1:\2:", l)
        if re.match(r"\S+\.(qbk|cpp)[:(]", l):
            l = re.sub(r"(Invalid unicode character: D8).*", r"\1", l.replace("character: d8", "character: D8"))
            l = re.sub(r"near column \d+\.$", "near column", l)
            l = re.sub(r"(Invalid id: b).*", r"\1", l)
            got[l] = got.get(l, 0) + 1
    if want != got:
        lost = ["%s (%d times)" % (k, v - got.get(k, 0)) for k, v in sorted(want.items()) if v > got.get(k, 0)]
        more = ["%s (%d times)" % (k, v - want.get(k, 0)) for k, v in sorted(got.items()) if v > want.get(k, 0)]
        raise Fail("expected %s\nbut got %s\n%s\n%s" % (lost, more, src.sample, res.describe()))
    if (res.code == 0) != (d.errors == 0):
        raise Fail("exit status %d with %d errors\n%s\n%s" % (res.code, d.errors, src.sample, res.describe()))

PROPERTY = {
    "id": "C15",
    "rule": "position: several lines; mapped: an unindented piece or a copy from another builder",
    "families": [
        Family("position", f_position, 40000),
        Family("mapped", f_mapped, 80000, rule="sequences of builder operations over one original file against an offset model"),
        Family("documents", f_diag, 5000, rule="at least two problems in a document"),
    ],
}
