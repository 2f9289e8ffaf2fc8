"""C26 Symbol tables."""
from ..engine import Family, Fail
from ..driver import pack

def gen_names(src, alphabet, n):
    names = []
    for _ in src.many(1, n, n * 0.6):
        if names and src.bool(0.45):
            base = src.pick(names)
            k = src.draw(2)
            if k == 0:
                nm = base + src.text(alphabet, 1, 3, 1.5)
            elif k == 1 and len(base) > 1:
                nm = base[:src.int(1, len(base) - 1)]
            else:
                nm = base[:-1] + src.pick(alphabet)
        else:
            nm = src.text(alphabet, 1, 6, 3)
        names.append(nm)
    return names

def lookup(table, text):
    best = None
    for nm in table:
        if text.startswith(nm) and (best is None or len(nm) > len(best)):
            best = nm
    return best

def enc(s):
    return s.encode("latin-1")

def f_symbols(src, env):
    alpha = src.pick(["ab", "abc_", "_ABab1", "a\xe9\x80\xff\x7f", "[]*=~"])
    names = gen_names(src, alpha, 8)
    model = [dict() for _ in range(4)]
    ops, want = [], []
    shared = False
    nval = 0
    adds = 0
    for _ in src.many(3, 40, 18):
        k = src.weighted([(8, "add"), (5, "parse"), (4, "find"), (2, "copy"), (1, "assign"), (1, "clear")])
        t = src.int(0, 3)
        if k == "add":
            nm = src.pick(names)
            nval += 1
            v = "v%d" % nval
            ops.append(pack("add", t, enc(nm), v))
            # symbols are set to the newest value
            model[t][nm] = v
            adds += 1
        elif k in ("copy", "assign"):
            u = src.int(0, 3)
            ops.append(pack(k, t, u))
            model[t] = dict(model[u])
            shared = shared or bool(model[u])
        elif k == "clear":
            ops.append(pack("clear", t))
            model[t] = {}
        elif k == "parse":
            text = src.pick(names) if src.bool(0.8) else ""
            j = src.draw(3)
            if j == 1:
                text += src.text(alpha, 0, 3, 1.5)
            elif j == 2:
                text = text[:-1]
            elif j == 3:
                text += src.pick(names)
            ops.append(pack("parse", t, enc(text)))
            b = lookup(model[t], text)
            want.append(("parse %r in %r" % (text, model[t]), b"no" if b is None else b"%d" % len(b),
                         b"-" if b is None else b"+" + model[t][b].encode()))
        else:
            nm = src.pick(names)
            j = src.draw(3)
            if j == 1:
                nm += src.pick(alpha)
            elif j == 2 and len(nm) > 1:
                nm = nm[:-1]
            ops.append(pack("find", t, enc(nm)))
            want.append(("find %r in %r" % (nm, model[t]), b"+" + model[t][nm].encode() if nm in model[t] else b"-"))
    # finally every table answers every name and every extension of it
    for t in range(4):
        for nm in names:
            ops.append(pack("find", t, enc(nm)))
            want.append(("find %r in %r" % (nm, model[t]), b"+" + model[t][nm].encode() if nm in model[t] else b"-"))
            text = nm + src.pick(alpha) if src.bool(0.3) else nm
            ops.append(pack("parse", t, enc(text)))
            b = lookup(model[t], text)
            want.append(("parse %r in %r" % (text, model[t]), b"no" if b is None else b"%d" % len(b),
                         b"-" if b is None else b"+" + model[t][b].encode()))
    src.key = repr(ops)
    src.sample = "names %r, %d operations, tables %r" % (names, len(ops), model)
    src.nontrivial = adds >= 3 and shared and any(a != b and b.startswith(a) for a in names for b in names)
    src.label("shared" if shared else "unshared")
    got = env.unit("symbols", *ops)
    if not isinstance(got, list):
        raise Fail("symbols threw %r" % (got,))
    i = 0
    for w in want:
        g = tuple(got[i:i + len(w) - 1])
        i += len(w) - 1
        if g != tuple(w[1:]):
            raise Fail("%s: got %r, expected %r\nafter %r" % (w[0], g, w[1:], ops_text(ops)))

def ops_text(ops):
    from ..driver import unpack
    return [tuple(x.decode("latin-1") for x in unpack(o)) for o in ops]

PROPERTY = {
    "id": "C26",
    "rule": "the history adds at least three names to a table, copies a non-empty table and has a name that is a proper prefix of another",
    "families": [Family("history", f_symbols, 200000,
                        rule="histories of add / copy / assign / clear / parse / find over four tables against dictionaries")],
}
