"""C10: template calls substitute their arguments with the documented scoping.

The programs family generates a set of definitions and calls as a syntax tree,
prints it as quickbook and evaluates it with an interpreter of its own."""
import re
from ..engine import Fail, Discard, Family
from ..docgen import Gen, header, body_of, VERSIONS
from ..docrun import convert, compare, tree, PLAIN
from ..xmltree import E, merge, canon, diff

class Bad(Exception):
    pass

class Unsure(Exception):
    pass

PHRASE_NAMES = ["t0", "t1", "t2", "a", "b", "c", "t10", "v_x"]
BLOCK_NAMES = ["B0", "B1", "p"]
PUNCT_NAMES = ["%", "+", "&", "<"]
WORDS = ["w", "x1", "kk", "q<r", "m&n", "mac", "Z;"]

# pieces: ("text", s) ("sp", s) ("call", name, [args]) ("inline", mark, pieces) ("esc", name)
# blocks: ("para", pieces) ("list", [pieces]) ("def", name, params, kind, body) ("macro", value)
# args: {"tag": "phrase"/"block", "pieces"/"blocks"}

class Prog:
    def __init__(self, src, ver):
        self.src, self.ver = src, ver
        self.budget = 40
        self.calls = 0
        self.known = {}          # name -> number of parameters

    def pieces(self, depth, names, lo=1, hi=5, mean=2.5, arg=False, simple=False):
        src = self.src
        out = []
        for i in src.many(lo, hi, mean):
            if i:
                sep = src.pick([" ", " ", "", "  "] if not arg else [" ", "", " "])
                if sep == "" and out[-1][0] == "text":
                    sep = " "
                if sep:
                    out.append(("sp", sep))
            self.budget -= 1
            deep = depth > 0 and self.budget > 0
            k = src.weighted([(5, "text"), (5 if deep or not simple else 0, "call"), (1 if deep and not simple else 0, "inline"), (1 if not simple and self.ver >= 105 and not arg else 0, "esc")])
            if k == "text" and self.ver >= 105 and src.bool(0.08):
                out.append(("slash",) + src.pick([("k\\ k", "kk"), ("k\\[", "k["), ("\\]k", "]k"), ("k\\]k", "k]k"), ("\\[k", "[k"), ("k\\.\\.k", "k..k"), ("k\\\\k", "k\\k")] if self.ver >= 106 else [("k\\ k", "kk"), ("k\\.\\.k", "k..k")]))
            elif k == "text":
                out.append(("text", src.pick(WORDS)))
            elif k == "call":
                out.append(self.call(depth, names, simple))
            elif k == "inline":
                out.append(("inline", src.pick("*'_^"), [("text", "i"), ("sp", " ")] + self.pieces(depth - 1, names, 1, 3, 1.5)))
            else:
                out.append(("esc", src.pick(["t0", "t1", "t2"]), src.pick(["", "", " ", "\n"]), src.pick(["", "", " "])))
        # adjacent texts would join
        res = []
        for p in out:
            if res and p[0] in ("text", "slash") and res[-1][0] in ("text", "slash"):
                res.append(("sp", " "))
            res.append(p)
        return res

    def call(self, depth, names, simple):
        src = self.src
        known = [n for n in names if n in self.known]
        name = src.pick(known) if known and not src.bool(0.08) else src.pick(names)
        n = self.known.get(name, 0)
        if src.bool(0.06):
            n = src.int(0, 3)
        split = n > 1 and src.bool(0.25)
        args = []
        if simple or depth <= 0:
            # only what takes no arguments
            zero = [x for x in known if self.known[x] == 0]
            if zero and n:
                name = src.pick(zero)
        elif n:
            for i in ([0] if split and self.ver >= 105 else range(n)):
                if split and self.ver >= 105:
                    ps = []
                    for j in range(n):
                        ps += ([("sp", " ")] if j else []) + self.pieces(0, names, 1, 1, 1, arg=True, simple=True)
                    args.append({"tag": "phrase", "pieces": ps})
                    continue
                if i and self.ver >= 105 and src.bool(0.12):
                    args.append({"tag": "block", "lead": src.pick(["", "", " ", "\t", "  "]), "blocks": [("para", [("text", "blk"), ("sp", " ")] + self.pieces(0, names, 1, 2, 1.5, simple=True))]})
                else:
                    ps = self.pieces(depth - 1 if self.ver >= 105 else 0, names, 1, 3, 1.4, arg=True, simple=self.ver < 105)
                    if i and src.bool(0.2):
                        ps = [("sp", " ")] + ps
                    if src.bool(0.15):
                        ps = ps + [("sp", " ")]
                    args.append({"tag": "phrase", "pieces": ps})
        return ("call", name, args)

    def definition(self, depth, names_pool):
        src = self.src
        block = src.bool(0.35)
        name = src.pick(BLOCK_NAMES if block else PHRASE_NAMES[:6])
        if not block and src.bool(0.1):
            name = src.pick(PUNCT_NAMES)
        if name in self.known and not src.bool(0.1):
            free = [x for x in (BLOCK_NAMES if block else PHRASE_NAMES) if x not in self.known]
            if free:
                name = src.pick(free)
        params = []
        for _ in src.many(0, 3, 1.3):
            # a repeated parameter is an error
            params.append(src.pick(["a", "b", "c", "t1", "t2", "p", "v_x"]))
        if len(set(params)) < len(params) and not src.bool(0.05):
            params = sorted(set(params))
        names = params * 3 + names_pool
        outer = dict(self.known)
        if src.bool(0.08):
            self.known[name] = len(params)     # may call itself
        for p in params:
            self.known[p] = 0
        if block:
            body = [self.block(depth - 1, names) for _ in src.many(1, 3, 1.5)]
        else:
            body = self.pieces(2, names)
        self.known = outer
        self.known[name] = len(params)
        return ("def", name, params, "block" if block else "phrase", body)

    def block(self, depth, names):
        src = self.src
        self.budget -= 1
        k = src.weighted([(6, "para"), (1, "list"), (2 if depth > 0 else 0, "def"), (1 if depth > 0 else 0, "macro")])
        if k == "def":
            return self.definition(depth, names)
        if k == "macro":
            return ("macro", src.pick(["M1", "M2"]))
        if k == "list":
            return ("list", [[("text", "li"), ("sp", " ")] + self.pieces(1, names, 1, 3, 2) for _ in src.many(1, 2, 1.5)])
        return ("para", [("text", "o"), ("sp", " ")] + self.pieces(2, names))

    def program(self):
        src = self.src
        names = PHRASE_NAMES + BLOCK_NAMES + (PUNCT_NAMES if src.bool(0.2) else [])
        out = []
        for _ in src.many(2, 9, 6):
            out.append(self.definition(1, names) if src.bool(0.55) else self.block(1, names))
        out.append(("para", [("text", "o"), ("sp", " ")] + self.pieces(2, names)))
        return out

# -- printing ----------------------------------------------------------
def p_pieces(ps):
    return "".join(p_piece(p) for p in ps)

def p_piece(p):
    if p[0] in ("text", "sp", "slash"):
        return p[1]
    if p[0] == "inline":
        return "[" + p[1] + " " + p_pieces(p[2]) + "]"
    if p[0] == "esc":
        return "[" + p[2] + "`" + p[1] + p[3] + "]"
    name, args = p[1], p[2]
    if not args:
        return "[" + name + "]"
    return "[" + name + ("" if not name[0].isalnum() and name[0] != "_" else " ") + "..".join(p_arg(a) for a in args) + "]"

def p_arg(a):
    if a["tag"] == "block":
        return a["lead"] + "\n" + p_blocks(a["blocks"]) + "\n"
    return p_pieces(a["pieces"])

def p_blocks(bs):
    return "\n\n".join(p_block(b) for b in bs)

def p_block(b):
    if b[0] == "para":
        return p_pieces(b[1])
    if b[0] == "list":
        return "\n".join("* " + p_pieces(x) for x in b[1]) + "\n\nz"
    if b[0] == "macro":
        return "[def mac " + b[1] + "]"
    _, name, params, kind, body = b
    if kind == "phrase":
        return "[template %s[%s]%s]" % (name, " ".join(params), body_source(b))
    return "[template %s[%s]%s]" % (name, " ".join(params), body_source(b))

def body_source(d):
    if d[3] == "phrase":
        return p_pieces(d[4])
    return "\n" + p_blocks(d[4]) + "\n"

# -- evaluation --------------------------------------------------------
class Sym:
    def __init__(self, name, params, kind, body, scope, source):
        self.name, self.params, self.kind, self.body, self.scope, self.source = name, params, kind, body, scope, source

class Scope:
    def __init__(self, parent):
        self.parent, self.syms, self.caller = parent, {}, None
    def find(self, name):
        s = self
        while s:
            if name in s.syms:
                return s.syms[name]
            s = s.parent
        return None

class Eval:
    def __init__(self, ver):
        self.ver = ver
        self.out, self.cur = [], []
        self.macro = "mac"
        self.steps = 0
        self.go_on = False
        self.depth = 0
        self.inline = 0
        self.inlist = False
        self.inphrase = 0
        self.called = 0
        self.shadow = 0

    def step(self):
        self.steps += 1
        if self.steps > 3000:
            raise Unsure()

    def flush(self):
        if any(not isinstance(x, str) or x.strip() for x in self.cur):
            self.out.append(E("simpara" if self.inlist else "para", {}, merge(self.cur)))
        self.cur = []

    def pieces(self, ps, scope):
        for p in ps:
            self.step()
            if p[0] == "text":
                self.cur.append(self.macro if p[1] == "mac" else p[1])
            elif p[0] == "sp":
                self.cur.append(p[1])
            elif p[0] == "slash":
                self.cur.append(p[2])
            elif p[0] == "inline":
                saved, self.cur = self.cur, []
                self.inline += 1
                self.pieces(p[2], scope)
                self.inline -= 1
                tag, at = {"*": ("emphasis", {"role": "bold"}), "'": ("emphasis", {}), "_": ("emphasis", {"role": "underline"}), "^": ("literal", {})}[p[1]]
                self.cur = saved + [E(tag, at, merge(self.cur))]
            elif p[0] == "esc":
                s = scope.find(p[1])
                if s is None:
                    raise Unsure()
                if s.kind != "phrase" or re.search("[<&\\\\]", s.source):
                    raise Unsure()
                self.cur.append(s.source)
            else:
                self.call(p, scope)

    def blocks(self, bs, scope):
        for b in bs:
            self.step()
            if b[0] == "para":
                self.pieces(b[1], scope)
                self.flush()
            elif b[0] == "list":
                items = []
                out, self.out = self.out, []
                for x in b[1]:
                    was, self.inlist = self.inlist, True
                    self.inline += 1
                    self.pieces(x, scope)
                    self.inline -= 1
                    self.flush()
                    self.inlist = was
                    items.append(E("listitem", {}, self.out))
                    self.out = []
                self.out = out + [E("itemizedlist", {}, items), E("para", {}, ["z"])]
            elif b[0] == "macro":
                if self.ver >= 106 or self.macro == "mac":
                    self.macro = b[1]
            else:
                _, name, params, kind, body = b
                if name in scope.syms:
                    raise Bad("redefinition")
                scope.syms[name] = Sym(name, params, kind, body, scope, body_source(b))

    def split(self, args, n):
        """Arguments divided at white space."""
        if not (len(args) if self.ver < 105 else len(args) == 1):
            return args
        args = list(args)
        while len(args) < n:
            a = args[-1]
            if a["tag"] != "phrase":
                raise Unsure()
            ps = a["pieces"]
            if self.ver < 105 and any(p[0] not in ("text", "sp") and " " in p_piece(p) for p in ps):
                raise Unsure()
            i = next((i for i, p in enumerate(ps) if p[0] == "sp"), None)
            if i is None or i == len(ps) - 1:
                break
            args[-1] = {"tag": "phrase", "pieces": ps[:i]}
            args.append({"tag": "phrase", "pieces": ps[i + 1:]})
        return args

    def call(self, p, scope):
        name, args = p[1], p[2]
        s = scope.find(name)
        if s is None:
            if any(a["tag"] == "block" for a in args) or (self.ver < 106 and self.inline):
                raise Unsure()
            # literal brackets
            self.cur.append("[" + name + ("" if not args or not (name[0].isalnum() or name[0] == "_") else " "))
            for i, a in enumerate(args):
                if i: self.cur.append("..")
                self.pieces(a["pieces"], scope)
            self.cur.append("]")
            return
        if args and args[0]["tag"] == "phrase" and not args[0]["pieces"]:
            raise Unsure()
        args = self.split(args, len(s.params))
        if len(args) != len(s.params):
            if self.go_on: return
            raise Bad("count")
        if any(not p_arg(a) for a in args):
            raise Unsure()
        self.called += 1
        if s.kind == "block":
            if self.inline or (self.inphrase and self.ver < 107):
                raise Unsure()
            self.flush()
        self.depth += 1
        if self.depth > 100:
            raise Bad("depth")
        if len(set(s.params)) < len(s.params):
            raise Bad("repeated parameter")
        frame = Scope(s.scope if self.ver >= 105 else scope)
        for n, a in zip(s.params, args):
            if scope.find(n): self.shadow += 1
            frame.syms[n] = Sym(n, [], a["tag"], a["blocks"] if a["tag"] == "block" else a["pieces"], scope, p_arg(a))
        macro = self.macro
        if s.kind == "block":
            saved, self.inphrase = self.inphrase, 0
            self.blocks(s.body, frame)
            self.inphrase = saved
            self.flush()
        else:
            self.inphrase += 1
            self.pieces(s.body, frame)
            self.inphrase -= 1
        self.macro = macro
        self.depth -= 1

def too_big(prog, ver):
    ev = Eval(ver)
    ev.go_on = True
    try:
        ev.blocks(prog, Scope(None))
    except Bad:
        return False
    except (Unsure, RecursionError):
        return True
    return False

def f_programs(src, env):
    ver = src.pick([107, 107, 106, 106, 105, 104, 101])
    prog = Prog(src, ver).program()
    if ver < 106 and any(b[0] == "macro" for b in prog):
        pass
    doc = header(ver) + "\n\n".join(p_block(b) for b in prog) + "\n"
    # names at the start of a punctuation name would be read as elements
    ev = Eval(ver)
    bad = None
    try:
        ev.blocks(prog, Scope(None))
    except Bad as e:
        bad = str(e)
    except (Unsure, RecursionError):
        raise Discard("outside the reference's domain")
    src.key = doc
    src.sample = doc
    if bad:
        # keep correct programs in the majority
        src.label("error: " + bad)
        src.nontrivial = True
        try:
            convert(env, doc, ok=False)
        except Fail as e:
            # (the program goes on after the error, and what follows can be
            # of exponential size)
            if "\ntimeout" in str(e) and too_big(prog, ver):
                raise Discard("too big after an error")
            raise
        return
    if ev.called == 0 and not src.bool(0.3):
        raise Discard("no call")
    src.nontrivial = ev.called > 1
    if ev.shadow: src.label("shadowing")
    if ev.called > 3: src.label("more than 3 calls")
    if "mac" in doc: src.label("macro")
    res = convert(env, doc)
    compare(doc, ev.out, res)

# -- rich content ------------------------------------------------------
class ParamGen(Gen):
    BASE_PHRASE = dict(Gen.BASE_PHRASE, param=14)
    def p_param(self, depth, ctx, ol):
        n = self.src.pick(self.params)
        self.count("param")
        return "[" + n + "]", [E("#param", {"n": n})], True

def subst(nodes, env):
    out = []
    for k in nodes:
        if isinstance(k, str):
            out.append(k)
        elif k.tag == "#param":
            out += env[k.attrs["n"]]
        else:
            out.append(E(k.tag, k.attrs, subst(k.kids, env), k.info))
    return merge(out)

def f_documents(src, env):
    """Bodies and arguments made of every kind of construct (1.6 on)."""
    ver = src.pick([107, 107, 106])
    doc = header(ver)
    want = []
    tmpls = []
    for i in src.many(1, 3, 2):
        g = ParamGen(src, ver, {"url": 1, "link": 1, "footnote": 2})
        g.params = ["a1", "b_", "c"][:src.int(0, 3)]
        block = src.bool(0.4)
        if block:
            s, n = g.blocks(2, 1, 3, 2)
            body = "\n" + src.pick(["", "\n"]) + s + "\n"
            if body.rstrip("\n").split("\n")[-1].startswith(" ") and ver >= 107 and False:
                raise Discard("")
        else:
            s, n = g.phrase(2, 1, 6, 3, start=True)
            body = src.pick(["", " "]) + s
            if body[0] == " ":
                n = [" "] + n
        doc += "[template tp%d[%s]%s]\n" % (i, " ".join(g.params), body)
        tmpls.append((i, g.params, block, n))
    g = Gen(src, ver, {"url": 1, "link": 1, "footnote": 2})
    for _ in src.many(1, 4, 2.5):
        i, params, block, body = src.pick(tmpls)
        args, vals = [], {}
        for k, p in enumerate(params):
            s, n = g.phrase(2, 1, 4, 2, ctx="a", start=True)
            if ".." in s:
                raise Discard("an argument separator")
            if k == 0 and not s[:1].isalnum():
                s, n = "o " + s, ["o "] + n
            if s.endswith(".") or s.startswith("."):
                s, n = s + "o", n + ["o"]
                if s.startswith("."):
                    s, n = "o " + s, ["o "] + n
            if not any(isinstance(x, E) or x.strip() for x in n):
                # a link without a text shows its target
                s, n = s + "o", n + ["o"]
            args.append(s)
            vals[p] = n
        if len(args) == 0:
            c = "[tp%d]" % i
        else:
            c = "[tp%d%s%s]" % (i, src.pick([" ", "\n", "  "]), "..".join(args))
        if block and src.bool(0.4):
            # in the middle of a paragraph: text, the blocks, text
            before, after = src.pick(["", "before ", "be *fore* "]), src.pick(["", " after", "\nafter _er_"])
            doc += "\n" + before + c + after + "\n"
            if before:
                want.append(E("para", {}, ["before"] if before == "before " else ["be ", E("emphasis", {"role": "bold"}, ["fore"])]))
                src.label("after text")
            want += subst(body, vals)
            if after:
                want.append(E("para", {}, ["after"] if after == " after" else ["after ", E("emphasis", {"role": "underline"}, ["er"])]))
        elif block:
            doc += "\n" + c + "\n"
            want += subst(body, vals)
        else:
            s1, n1 = g.phrase(1, 1, 2, 1.3)
            s1, n1 = g.guard(s1, n1, False)
            n1 = n1[0].kids
            inner = subst(body, vals)
            doc += "\n" + s1 + " " + c + " end\n"
            want.append(E("para", {}, merge(n1 + [" "] + inner + [" end"])))
    src.key = src.sample = doc
    src.nontrivial = any(t[1] for t in tmpls)
    if any(t[2] for t in tmpls): src.label("block template")
    res = convert(env, doc)
    compare(doc, want, res)

PIECES = ["`a]b`", "`[`", "`]`", "``]``", "``\n x ] y\n ``", "```\n [ \n  ```", "``` a ] ```", "``\n[[\n``", "``` a `` [\"q] `` ` [ ```", "'''x ] y'''", "'''['''", "\\]", "\\[", "\\`", "[/ c [d] ]", "[/ `]", "[*b]",
          "[^[_x]]", "word", "w", "(p)", "[* a `]` c]", "[footnote f `[`]", "``` ]\n\n  [ \n```", "\\\\", "``\n\n\n ]``", "[\"q]", "\\ ", "[@http://u/ `]`]", "[role r x]", "('')"]

def f_skipped(src, env):
    """Where bodies and arguments end: what stands in a body or an argument
    gives the same as in the place of the call (1.6 on)."""
    ver = src.pick([107, 106])
    def text(lo):
        out = ""
        for _ in src.many(lo, 7, 3):
            t = src.weighted([(5, src.pick(PIECES)), (2, "a"), (1, "bc")])
            if "`" in t and out and not out[-1].isspace():
                out += " "
            out += t + src.pick([" ", " ", "" if "`" not in t else " ", "\n", " \n"])
        out = "o " + out.strip() + " o"
        return out
    how = src.pick(["block", "block", "argument", "both"])
    first, second = text(1), text(1)
    if re.search(r"\n\s*``|``[^`]*\n", first + second): src.label("code over lines")
    blk = src.pick(["\n", " \n", "\n\n"])
    direct = header(ver) + "sep\n\n" + first + "\n\n" + second + "\n\nend\n"
    doc = header(ver)
    if how == "block":
        doc += "[template t[]%s%s\n\n%s\n]\n\nsep\n\n[t]\n\nend\n" % (blk, first, second)
    elif how == "argument":
        if ".." in first + second:
            raise Discard("an argument separator")
        doc += "[template u[x y]\n[x]\n\n[y]\n]\n\nsep\n\n[u%s%s\n..%s%s\n]\n\nend\n" % (blk, first, blk, second)
    else:
        doc += "[template t[]%s%s\n]\n[template u[x]\n[x]\n]\n\nsep\n\n[t]\n\n[u%s%s\n]\n\nend\n" % (blk, first, blk, second)
    src.key = src.sample = doc
    src.nontrivial = bool(re.search(r"`[^`]*[\[\]]|\\[\[\]]|'''", first + second))
    src.label(how)
    a, b = convert(env, direct), convert(env, doc)
    x, y = tree(direct, a), tree(doc, b)
    d = diff(canon(E("#body", {}, body_of(x)), False, False), canon(E("#body", {}, body_of(y)), False, False))
    if d:
        raise Fail("%s\n----- direct\n%s\n----- with templates\n%s\n----- output\n%s" % (d, direct, doc, b.files["o.xml"].decode("utf-8", "replace")))

PROPERTY = {
    "id": "C10",
    "rule": "at least two calls (documents: a template with parameters), or a definite error",
    "families": [
        Family("programs", f_programs, 14000, rule="generated definitions and calls with clashing names, nested calls and definitions, macros and block arguments, against an interpreter with static (1.5 on) and dynamic scoping"),
        Family("skipped", f_skipped, 2000, rule="brackets in code, escapes or raw text in bodies and arguments, compared with the same text in the place of the call"),
        Family("documents", f_documents, 4000, rule="bodies and arguments made of all kinds of constructs with the expected tree"),
    ],
}
