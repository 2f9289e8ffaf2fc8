"""C21 Value lists."""
from ..engine import Family, Fail
from ..driver import pack, unpack

SOURCE = "abcdefghijklmnopqrstuvwxyz"

def show(v):
    k, t = v[0], v[1]
    if k == "L":
        return "L%d[%s]" % (t, ",".join(show(x) for x in v[2]))
    if k == "E":
        return "E%d" % t
    if k == "I":
        return "I%d:%d:%d" % (t, v[2], v[2])
    if k == "S":
        return "S%d:%s" % (t, v[2])
    if k == "Q":
        return "Q%d:%s@%d" % (t, SOURCE[v[2]:v[3]], v[2])
    if k == "SQ":
        return "S%d:%s|Q:%s@%d" % (t, v[4], SOURCE[v[2]:v[3]], v[2])

def eq(a, b):
    """Equality ignores tags; None where the kinds compare asymmetrically."""
    if a[0] != b[0]:
        if "E" in (a[0], b[0]) or "L" in (a[0], b[0]):
            return False
        return None
    if a[0] == "E":
        return True
    if a[0] == "I" or a[0] == "S":
        return a[2] == b[2]
    if a[0] in ("Q", "SQ"):
        return SOURCE[a[2]:a[3]] == SOURCE[b[2]:b[3]]
    r = [eq(x, y) for x, y in zip(a[2], b[2])]
    if None in r:
        return None
    return len(a[2]) == len(b[2]) and all(r)

class Builder:
    def __init__(self):
        self.cur, self.tag, self.saved = [], 0, None
    def take(self, o):
        self.cur, self.tag, self.saved, o.cur, o.tag, o.saved = o.cur, o.tag, o.saved, self.cur, self.tag, self.saved
    def save(self):
        n = Builder()
        n.cur, n.tag, n.saved = self.cur, self.tag, self.saved
        self.cur, self.tag, self.saved = [], 0, n
    def restore(self):
        s = self.saved
        self.cur, self.tag, self.saved = s.cur, s.tag, s.saved
    def release(self):
        v = ("L", self.tag, tuple(self.cur))
        self.cur = []
        return v

def depth(v):
    return 1 + max([depth(x) for x in v[2]] + [0]) if v[0] == "L" else 0

def size(v):
    return 1 + sum(size(x) for x in v[2]) if v[0] == "L" else 1

def show_ops(ops):
    return [" ".join(x.decode() for x in unpack(o)) for o in ops]

WEIGHTS = [(4, "S"), (3, "I"), (2, "Q"), (2, "SQ"), (2, "E"), (1, "nil"), (24, "insert"), (8, "start"), (2, "start0"),
           (10, "finish"), (2, "clear"), (4, "sort"), (2, "save"), (2, "restore"), (1, "bswap"), (2, "extend"),
           (3, "release"), (1, "reset"), (2, "copy"), (1, "swap"), (2, "eq"), (2, "nth"), (2, "insertnth"), (1, "empty"),
           (3, "consumer"), (1, "ccopy"), (4, "consume"), (2, "consumet"), (2, "opt"), (2, "optt"), (1, "check"),
           (1, "checkt"), (1, "cfinish"), (1, "rest"), (2, "show")]

def f_history(src, env):
    slots = [("E", 0)] * 6
    bs = [Builder() for _ in range(3)]
    cs = [None] * 3
    ops, want = [], []
    sorts, lists, extra = 0, 0, 0
    def op(*a):
        ops.append(pack(*a))
    for i in range(src.int(0, 5)):
        t = src.int(0, 4)
        op("S", i, t, "s%d" % i)
        slots[i] = ("S", t, "s%d" % i)
    for _ in src.many(5, 70, 40):
        k = src.weighted(WEIGHTS)
        a, b2 = src.int(0, 5), src.int(0, 5)
        x, y = src.weighted([(6, 0), (2, 1), (1, 2)]), src.weighted([(4, 0), (1, 1), (1, 2)])
        t = src.int(0, 4)
        if k == "E":
            op("E", a, t)
            slots[a] = ("E", t)
        elif k == "nil":
            op("nil", a)
            slots[a] = ("E", 0)
        elif k == "I":
            n = src.pick([0, 1, -1, 7, 2147483647, -2147483648])
            op("I", a, t, n)
            slots[a] = ("I", t, n)
        elif k == "S":
            s = src.pick(["", "s", "t", "u", "5", "long" * 10])
            op("S", a, t, s)
            slots[a] = ("S", t, s)
        elif k in ("Q", "SQ"):
            p = src.int(0, 20)
            q = src.int(p, min(p + 5, 26))
            if k == "Q":
                op("Q", a, t, p, q)
                slots[a] = ("Q", t, p, q)
            else:
                s = src.pick(["", "enc", "x"])
                op("SQ", a, t, p, q, s)
                slots[a] = ("SQ", t, p, q, s)
        elif k == "insert":
            if size(slots[a]) > 60:
                continue
            op(k, x, a)
            bs[x].cur.append(slots[a])
        elif k == "start":
            op(k, x, t)
            bs[x].save()
            bs[x].tag = t
        elif k == "start0":
            op(k, x)
            bs[x].save()
        elif k == "save":
            op(k, x)
            bs[x].save()
        elif k == "finish":
            if bs[x].saved:
                op(k, x)
                v = bs[x].release()
                bs[x].restore()
                bs[x].cur.append(v)
                lists += 1
        elif k in ("clear", "restore"):
            if bs[x].saved:
                op(k, x)
                bs[x].restore()
        elif k == "sort":
            op(k, x)
            bs[x].cur = sorted(bs[x].cur, key=lambda v: v[1])
            if len(set(v[1] for v in bs[x].cur)) > 1:
                sorts += 1
        elif k == "bswap":
            if x != y:
                op(k, x, y)
                bs[x].take(bs[y])
        elif k == "extend":
            if size(slots[a]) > 60:
                continue
            op(k, x, a)
            if slots[a][0] == "L":
                bs[x].cur.extend(slots[a][2])
                extra += 1
            else:
                want.append("value_error")
        elif k == "release":
            op(k, x, a)
            slots[a] = bs[x].release()
        elif k == "reset":
            op(k, x)
            bs[x] = Builder()
        elif k == "copy":
            op(k, a, b2)
            slots[a] = slots[b2]
        elif k == "swap":
            op(k, a, b2)
            slots[a], slots[b2] = slots[b2], slots[a]
        elif k == "eq":
            e = eq(slots[a], slots[b2])
            if e is not None:
                op(k, a, b2)
                want.append("1" if e else "0")
        elif k == "nth":
            n = src.int(0, 3)
            op(k, a, b2, n)
            if slots[b2][0] != "L":
                want.append("value_error")
            else:
                slots[a] = slots[b2][2][n] if n < len(slots[b2][2]) else ("E", 0)
        elif k == "insertnth":
            n = src.int(0, 3)
            op(k, x, a, n)
            if slots[a][0] != "L":
                want.append("value_error")
            elif n < len(slots[a][2]):
                bs[x].cur.append(slots[a][2][n])
                extra += 1
        elif k == "empty":
            op(k, x)
            want.append("0" if bs[x].cur else "1")
        elif k == "consumer":
            op(k, y, a)
            if slots[a][0] != "L":
                want.append("value_error")
            else:
                cs[y] = [slots[a], 0]
        elif k == "ccopy":
            op(k, x, y)
            if cs[y]:
                cs[x] = list(cs[y])
        elif k == "show":
            op(k, a)
            want.append(show(slots[a]))
        else:
            c = cs[y]
            if c is None:
                continue
            items, pos = c[0][2], c[1]
            more = pos < len(items)
            op(k, y, t) if k in ("consumet", "optt", "checkt") else op(k, y)
            hit = more and (k in ("consume", "opt", "check") or items[pos][1] == t)
            if k in ("consume", "consumet"):
                want.append(show(items[pos]) if hit else "value_error")
                c[1] += hit
            elif k in ("opt", "optt"):
                want.append(show(items[pos]) if hit else "E0")
                c[1] += hit
            elif k in ("check", "checkt"):
                want.append("1" if hit else "0")
            elif k == "cfinish":
                want.append("value_error" if more else "finished")
            else:
                want.append("rest" + "".join(";" + show(v) for v in items[pos:]))
                c[1] = len(items)
    for i in range(3):
        while bs[i].saved:
            op("finish", i)
            v = bs[i].release()
            bs[i].restore()
            bs[i].cur.append(v)
    for i in range(6):
        op("show", i)
        want.append(show(slots[i]))
    for i in range(3):
        op("release", i, i)
        op("show", i)
        want.append(show(bs[i].release()))
    for i in range(3, 6):
        op("show", i)
        want.append(show(slots[i]))
    src.key = repr(ops)
    src.sample = "; ".join(show_ops(ops))
    src.nontrivial = lists >= 1 and (sorts >= 1 or extra >= 1)
    src.label("sorted" if sorts else "unsorted")
    got = env.unit("values", SOURCE, *ops)
    if not isinstance(got, list):
        raise Fail("values threw %r" % (got,))
    got = [g.decode() for g in got]
    if got != want:
        i = next((i for i in range(min(len(got), len(want))) if got[i] != want[i]), min(len(got), len(want)))
        raise Fail("values: answer %d is %r, expected %r\nafter %s" % (
            i, got[i:i + 1], want[i:i + 1], "; ".join(show_ops(ops))))

def f_sort(src, env):
    """Long lists with few tags: stability and completeness."""
    n = src.int(0, 5) if src.bool(0.2) else src.int(2, 40)
    ntags = src.int(1, 6)
    items, ops = [], []
    for i in range(n):
        t = src.int(0, ntags)
        items.append(("I", t, i))
        ops += [pack("I", 0, t, i), pack("insert", 0, 0)]
    rounds = src.int(1, 2)
    for _ in range(rounds):
        ops.append(pack("sort", 0))
        items = sorted(items, key=lambda v: v[1])
        if src.bool(0.4):
            ops += [pack("I", 0, 1, 99), pack("insert", 0, 0)]
            items.append(("I", 1, 99))
    ops += [pack("release", 0, 1), pack("show", 1)]
    src.key = repr(items)
    src.sample = show(("L", 0, items))
    src.nontrivial = n >= 3 and ntags >= 2
    got = env.unit("values", SOURCE, *ops)
    want = show(("L", 0, items))
    if not isinstance(got, list) or got[0].decode() != want:
        raise Fail("sorting %s: got %s, expected %s" % ("; ".join(show_ops(ops)), got, want))

PROPERTY = {
    "id": "C21",
    "rule": "the history finishes at least one nested list and sorts a list with several tags or inserts from another list; "
            "for the sort family: at least three values with several tags",
    "families": [
        Family("history", f_history, 120000, rule="histories over six values, three builders and three consumers against immutable tuples"),
        Family("sort", f_sort, 48000, rule="lists of up to 40 values with few tags, sorted once or twice"),
    ],
}
