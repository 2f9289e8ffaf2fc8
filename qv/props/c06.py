"""C06: the block structure of the source becomes the same structure."""
from ..engine import Fail, Discard, Family
from ..docgen import Gen, header, VERSIONS, body_of
from ..docrun import convert, compare, tree
from ..xmltree import E, elements, canon, diff, text_of

def run_blocks(src, env, g, ver, depth, lo, hi, mean, ctx=""):
    s, want = g.blocks(depth, lo, hi, mean, ctx)
    lead = src.pick(["", "", "\n", "[/ comment]\n\n"])
    doc = header(ver) + lead + s + src.pick(["\n", "", "\n\n", "\n\n[/ end]\n"])
    src.key = doc
    src.sample = doc
    kinds = set(e.tag for n in want for e in elements(n)) - set(("para", "emphasis", "literal"))
    src.nontrivial = len(want) > 1 and len(kinds) > 1
    for k in g.counts:
        if k.startswith("b_") or " " in k:
            src.label(k)
    res = convert(env, doc)
    compare(doc, want, res)

def f_blocks(src, env):
    ver = src.pick(VERSIONS)
    g = Gen(src, ver, {"inline": 3, "simple": 2, "footnote": 1})
    run_blocks(src, env, g, ver, 3, 1, 6, 3)

def f_lists(src, env):
    ver = src.pick([107, 107, 106, 105, 101])
    g = Gen(src, ver, {"inline": 2, "simple": 2}, {"list": 40, "explist": 6, "table": 1, "varlist": 1, "pre": 1})
    run_blocks(src, env, g, ver, 4, 1, 3, 1.5)

def f_tables(src, env):
    ver = src.pick(VERSIONS)
    g = Gen(src, ver, {"inline": 2, "simple": 2, "footnote": 1}, {"table": 40, "varlist": 20, "list": 3})
    run_blocks(src, env, g, ver, 3, 1, 3, 1.5)

# -- indentation: an independent model of list nesting ------------------
def white(src, start, end):
    """White space from one column to another: tabs stop at every fourth."""
    s = ""
    if not src.bool(0.35):
        return " " * (end - start)
    while start < end:
        stop = start + 4 - start % 4
        if stop <= end and src.bool(0.7):
            s += "\t"
            start = stop
        else:
            s += " "
            start += 1
    if "\t" in s:
        src.label("tabs")
    return s

def f_indent(src, env):
    indent(src, env, 1, 9, 5, 0)

def f_deep(src, env):
    """The same, with long lists and many levels."""
    indent(src, env, 10, 120, 30, 0.7)

def indent(src, env, lo, hi, mean, deep):
    """Lines at arbitrary columns; where each belongs follows from the columns
    alone (1.7)."""
    lines = []
    open_ = []          # [(marker column, text column, mark, item E, list E)]
    root = []
    n = src.int(1, 8)
    prev = "start"
    started = False
    want_text = []
    seq = 0
    out = ""
    for _ in src.many(lo, hi, mean):
        seq += 1
        word = "w%d" % seq
        kinds = ["item"]
        if open_ or not started or True:
            kinds.append("para")
        k = src.weighted([(3, "item"), (2, "para"), (1, "code")])
        if k == "item":
            # an open column, a deeper one, or column zero
            opts = [c[0] for c in open_]
            col = None
            if not open_:
                col = 0
            else:
                col = src.pick(opts + [open_[-1][0] + src.int(1, 5)])
                if deep and src.bool(deep):
                    col = open_[-1][0] + src.int(1, 4)
            if prev == "code" and open_ and col > open_[-1][1]:
                col = open_[-1][0]       # would be more code
            gap = src.int(1, 4)
            while open_ and col < open_[-1][0]:
                open_.pop()
            item = E("listitem")
            if open_ and open_[-1][0] == col:
                mark = open_[-1][2]
                lst = open_[-1][4]
                lst.kids.append(item)
                # the text column is that of the list's first item
                open_[-1] = (col, open_[-1][1], mark, item, lst, True)
            else:
                mark = src.pick("*#")
                lst = E("itemizedlist" if mark == "*" else "orderedlist", {}, [item])
                if open_:
                    parent = open_[-1]
                    if parent[5]:
                        # directly after the item's own first text
                        parent[3].kids[-1].kids.append(lst)
                    else:
                        parent[3].kids.append(E("simpara", {}, [lst]))
                    src.label("nested list")
                else:
                    root.append(lst)
                open_.append((col, col + 1 + gap, mark, item, lst, True))
            item.kids.append(E("simpara", {}, [word]))
            out += ("\n\n" if prev in ("para", "code") or src.bool(0.2) else "\n") if out else ""
            out += white(src, 0, col) + mark + white(src, col + 1, col + 1 + gap) + word
            prev = "item"
        elif k == "para":
            if open_:
                col = src.int(0, open_[-1][1])
            else:
                col = 0
            while open_ and col < open_[-1][0]:
                open_.pop()
            if open_ and col == open_[-1][0]:
                below = open_[-2][1] if len(open_) > 1 else 0
                if col <= below:
                    open_.pop()
            out += "\n\n" if out else ""
            out += white(src, 0, col) + word
            if open_:
                o = open_[-1]
                o[3].kids.append(E("simpara", {}, [word]))
                open_[-1] = o[:5] + (False,)
                src.label("list paragraph")
            else:
                root.append(E("para", {}, [word]))
            prev = "para"
        else:
            if prev == "code":
                continue
            base = open_[-1][1] if open_ else 0
            col = base + src.int(1, 4)
            out += "\n\n" if out else ""
            out += white(src, 0, col) + word
            e = E("programlisting", {}, [word + "\n"])
            if open_:
                o = open_[-1]
                o[3].kids.append(e)
                open_[-1] = o[:5] + (False,)
                src.label("list code")
            else:
                root.append(e)
            prev = "code"
    doc = header(107) + out + "\n"
    src.key = doc
    src.sample = doc
    src.nontrivial = any(True for r in root for e in elements(r, "listitem"))
    if deep:
        levels = max([0] + [depth_of(r) for r in root])
        src.label("levels %d+" % (levels // 4 * 4))
        src.nontrivial = levels > 5
    res = convert(env, doc)
    compare(doc, root, res)

def depth_of(e):
    return (e.tag in ("itemizedlist", "orderedlist")) + max([0] + [depth_of(k) for k in e.kids if isinstance(k, E)])

def f_wide(src, env):
    """Tables of many columns and rows, lists of many items, code of many lines
    and many blocks in a row."""
    ver = src.pick(VERSIONS)
    n = [0]
    def word():
        n[0] += 1
        return "w%d" % n[0]
    s, want = "", []
    for _ in src.many(1, 3, 1.5):
        k = src.pick(["table", "list", "code", "heads", "varlist", "paras", "nest"])
        src.label(k)
        if k == "table":
            # of ragged rows the last decides, deliberately
            nr, nc = src.pick([1, 2, 3, 9, 10, 33, 70]), src.pick([1, 2, 5, 8, 9, 10, 17, 40, 130])
            even = src.bool(0.7)
            rows = []
            for r in range(nr):
                rows.append([word() for _ in range(nc if even or not r else src.int(1, nc))])
            s += "[table\n" + "".join("  [" + "".join("[%s]" % c for c in r) + "]\n" for r in rows) + "]\n\n"
            er = [E("row", {}, [E("entry", {}, [E("para", {}, [c])]) for c in r]) for r in rows]
            tg = E("tgroup", {"cols": str(len(rows[-1]))}, [])
            tg.kids = [E("thead", {}, [er[0]]), E("tbody", {}, er[1:])] if len(er) > 1 else [E("tbody", {}, er)]
            want.append(E("informaltable", {"frame": "all"}, [tg]))
        elif k == "list":
            m = src.pick("*#")
            ws = [word() for _ in range(src.pick([1, 9, 10, 11, 99, 100, 257]))]
            s += "".join("%s %s\n" % (m, w) for w in ws) + "\n"
            want.append(E({"*": "itemizedlist", "#": "orderedlist"}[m], {}, [E("listitem", {}, [E("simpara", {}, [w])]) for w in ws]))
            s += "[/ between the lists]\n\n" + "mid\n\n"
            want.append(E("para", {}, ["mid"]))
        elif k == "code":
            ind = src.pick([1, 4, 9, 40, 260])
            ls = [" " * (src.pick([0, 0, 3, 20]) if i else 0) + word() for i in range(src.pick([1, 10, 70, 300]))]
            s += "".join(" " * ind + l + "\n" for l in ls) + "\n"
            want.append(E("programlisting", {}, ["\n".join(ls) + "\n"]))
            s += "mid\n\n"
            want.append(E("para", {}, ["mid"]))
        elif k == "heads":
            for _ in range(src.pick([1, 12, 60])):
                lv, w = src.int(1, 6), word()
                s += "[h%d %s]\n\n" % (lv, w)
                want.append(E("bridgehead", {"renderas": "sect%d" % lv}, [w]))
        elif k == "varlist":
            es = [(word(), word()) for _ in range(src.pick([1, 10, 90]))]
            s += "[variablelist v\n" + "".join("[[%s][%s]]\n" % e for e in es) + "]\n\n"
            want.append(E("variablelist", {}, [E("title", {}, ["v"])] + [E("varlistentry", {}, [E("term", {}, [t]), E("listitem", {}, [E("para", {}, [d])])]) for t, d in es]))
        elif k == "nest":
            # blocks inside of blocks
            d = src.pick([3, 8, 20, 45])
            w = word()
            inner = [E("para", {}, [w])]
            t = w
            for _ in range(d):
                b, tag = src.pick([("note", "note"), (":", "blockquote"), ("warning", "warning")])
                t = "[%s %s]" % (b, t)
                inner = [E(tag, {}, inner)]
            s += t + "\n\n"
            want += inner
        else:
            for _ in range(src.pick([5, 30, 200])):
                w = word()
                s += w + "\n\n"
                want.append(E("para", {}, [w]))
    doc = header(ver) + s
    src.key = src.sample = doc
    src.nontrivial = n[0] > 30
    compare(doc, want, convert(env, doc))

ADMON = ["note", "tip", "caution", "important", "warning"]

def f_after(src, env):
    """What follows a block element inside of a list item (1.6 on): from 1.7
    the line after it starts anew, before it continues the item."""
    ver = src.pick([107, 107, 106])
    n = [0]
    def word():
        n[0] += 1
        return "w%d" % n[0]
    doc, want, blocks = header(ver), [], 0
    for _ in src.many(1, 3, 1.8):
        mark = src.pick("*#")
        lst = E({"*": "itemizedlist", "#": "orderedlist"}[mark], {}, [])
        want.append(lst)
        ended = False
        for _ in src.many(1, 4, 2):
            item = E("listitem", {}, [])
            lst.kids.append(item)
            doc += mark + " "
            fresh = False
            text = []
            if src.bool(0.6):
                text = [word()]
                doc += text[0]
            for _ in src.many(1, 3, 1.5):
                if text or not item.kids:
                    # the element, on the same line or the next
                    if text: doc += src.pick([" ", "\n  "])
                if text: item.kids.append(E("simpara", {}, [" ".join(text)]))
                text = []
                k, w = src.pick(ADMON), word()
                doc += "[" + k + " " + w + "]"
                item.kids.append(E(k, {}, [E("para", {}, [w])]))
                blocks += 1
                # what follows
                f = src.weighted([(2, "line"), (2, "indented"), (1, "same"), (1, "nothing"), (2, "code")])
                if f == "same":
                    text = [word()]
                    doc += " " + text[0]
                elif f == "indented":
                    text = [word()]
                    doc += "\n  " + text[0]
                elif f == "line" and ver < 107:
                    text = [word()]
                    doc += "\n" + text[0]
                elif f == "line":
                    # ends the list
                    w = word()
                    doc += "\n" + w
                    if src.bool(0.5):
                        w += " " + word()
                        doc += "\n" + w.split()[1]
                    want.append(E("para", {}, [w]))
                    ended = True
                    break
                elif f == "code":
                    w = word()
                    if ver >= 107:
                        doc += "\n      " + w
                        item.kids.append(E("programlisting", {}, [w]))
                        break
                    doc += "\n      " + w
                    text = [w]
                else:
                    break
            if text: item.kids.append(E("simpara", {}, [" ".join(text)]))
            doc += "\n"
            if ended: break
        w = word()
        doc += "\n" + w + "\n\n"
        want.append(E("para", {}, [w]))
    src.key = src.sample = doc
    src.nontrivial = blocks >= 2
    src.label("1.%d" % (ver - 100))
    res = convert(env, doc)
    root = tree(doc, res)
    got = [k for k in body_of(root) if isinstance(k, E)]
    def plain(e):
        """Texts, code without its markup."""
        if isinstance(e, str): return e
        if e.tag == "programlisting": return E(e.tag, {}, [text_of(e).strip()])
        return E(e.tag, {}, [plain(k) for k in e.kids])
    got = [plain(k) for k in got]
    d = diff(canon(E("#", {}, want), True), canon(E("#", {}, got), True))
    if d:
        raise Fail("%s\n----- document\n%s\n----- output\n%s" % (d, doc, res.files["o.xml"].decode("utf-8", "replace")))

PROPERTY = {
    "id": "C06",
    "rule": "more than one block, one of them not a paragraph (indent: at least one list item)",
    "families": [
        Family("blocks", f_blocks, 6000, rule="documents of all block kinds, every language version, with the expected tree"),
        Family("lists", f_lists, 4000, rule="nested lists with paragraphs, code and blocks in their items"),
        Family("tables", f_tables, 3000, rule="tables and variable lists with nested blocks in their cells"),
        Family("indent", f_indent, 8000, rule="lines at arbitrary columns against a model of list nesting by indentation"),
        Family("deep", f_deep, 1200, rule="up to 120 lines at arbitrary columns, most of them deeper than the line before; non-trivial: more than five levels"),
        Family("wide", f_wide, 500, rule="tables of up to 130 columns and 70 rows, lists of up to 257 items, code of up to 300 lines, blocks nested up to 45 deep; non-trivial: more than thirty words"),
        Family("after", f_after, 1500, rule="block elements in list items followed by text, code or items on the same line or the next"),
    ],
}
