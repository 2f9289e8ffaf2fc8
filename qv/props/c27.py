"""C27 Output scopes, template scopes, cleanup."""
from ..engine import Family, Fail
from ..driver import pack, unpack

def show_ops(ops):
    return [" ".join(x.decode("utf-8", "replace") for x in unpack(o)) for o in ops]

def f_collector(src, env):
    external = src.bool(0.3)
    stack, reg = [""], ""
    ops, want = [], []
    n = 0
    depth = 0
    for _ in src.many(2, 40, 16):
        k = src.weighted([(6, "str"), (4, "push"), (4, "pop"), (3, "num"), (2, "cstr"), (2, "get"), (2, "char"),
                          (2, "append"), (3, "swap"), (2, "show"), (2, "setreg"), (1, "clear"), (1, "reg"), (1, "base")])
        n += 1
        t = "<%d>" % n * src.weighted([(5, 1), (2, 0), (1, 40), (1, 1500)])
        if k in ("str", "cstr", "get", "append"):
            ops.append(pack(k, t))
            stack[-1] += t
        elif k == "num":
            ops.append(pack(k, n))
            stack[-1] += str(n)
        elif k == "char":
            ops.append(pack(k, "c"))
            stack[-1] += "c"
        elif k == "push":
            ops.append(pack(k))
            stack.append("")
            depth = max(depth, len(stack))
        elif k == "pop":
            if len(stack) > 1:
                ops.append(pack(k))
                stack.pop()
        elif k == "swap":
            ops.append(pack(k))
            stack[-1], reg = reg, stack[-1]
        elif k == "setreg":
            reg = t
            ops.append(pack(k, reg))
        elif k == "clear":
            ops.append(pack("show"))       # what was written is collected first
            want.append(stack[-1])
            ops.append(pack(k))
            stack[-1] = ""
        elif k == "reg":
            ops.append(pack(k))
            want.append(reg)
        elif k == "base" and external:
            ops.append(pack(k))
            want.append(stack[0])
        else:
            ops.append(pack("show"))
            want.append(stack[-1])
    while True:
        ops.append(pack("show"))
        want.append(stack[-1])
        if len(stack) == 1:
            break
        ops.append(pack("pop"))
        stack.pop()
    if external:
        ops.append(pack("base"))
        want.append(stack[0])
    src.key = repr(ops)
    src.sample = "; ".join(x[:40] for x in show_ops(ops))
    src.nontrivial = depth >= 3
    got = env.unit("collector", "external" if external else "own", *ops)
    if not isinstance(got, list):
        raise Fail("collector threw %r" % (got,))
    if [g.decode() for g in got] != want:
        raise Fail("collector: got %r, expected %r\nafter %s" % (got, want, show_ops(ops)))

# -- template scopes ----------------------------------------------------

class Frame:
    def __init__(self, parent):
        self.parent, self.static, self.sym = parent, False, {}

def f_templates(src, env):
    names = src.pick([["a", "ab", "abc", "b"], ["x", "xy", "y", "z_1", "z"], ["foo", "foobar", "bar", "f"]])
    stack = [Frame(None)]
    ops, want = [], []
    n, shadow, called = 0, False, 0
    def chain():
        f = stack[-1]
        while f is not None:
            yield f
            f = f.parent
    def find(nm):
        for f in chain():
            if nm in f.sym:
                return f.sym[nm]
        return None
    def dynamic_parent():
        """The nearest scope on the call stack that is not a statically
        scoped template's own."""
        for f in reversed(stack):
            if not f.static:
                return f
    for _ in src.many(3, 45, 20):
        k = src.weighted([(7, "add"), (3, "push"), (3, "pop"), (3, "call"), (4, "find"), (2, "top"), (3, "parse")])
        nm = src.pick(names)
        if k == "add":
            n += 1
            body = "b%d" % n
            ops.append(pack("add", nm, body))
            f = stack[-1]
            if nm in f.sym:
                want.append("0")
            else:
                if find(nm):
                    shadow = True
                f.sym[nm] = (nm, body, f)
                want.append("1")
        elif k == "push":
            ops.append(pack("push"))
            stack.append(Frame(stack[-1]))
        elif k == "pop":
            if len(stack) > 1:
                ops.append(pack("pop"))
                stack.pop()
        elif k == "call":
            if len(stack) > 12:
                continue
            version = src.pick([104, 105, 100, 107])
            ops.append(pack("call", nm, version))
            s = find(nm)
            if s is None:
                want.append("none")
            else:
                called += 1
                f = Frame(None)
                if version >= 105:
                    f.static = True
                    f.parent = s[2]
                else:
                    f.parent = dynamic_parent()
                stack.append(f)
                want.append("called")
        elif k == "find":
            ops.append(pack("find", nm))
            s = find(nm)
            want.append(s[0] + "=" + s[1] if s else "-")
        elif k == "top":
            ops.append(pack("top", nm))
            s = stack[-1].sym.get(nm)
            want.append(s[0] + "=" + s[1] if s else "-")
        else:
            text = nm + src.pick(["", "x", "b", "bar", " "])
            ops.append(pack("parse", text))
            lens = [len(k2) for f in chain() for k2 in f.sym if text.startswith(k2)]
            want.append(str(max(lens)) if lens else "no")
    while True:
        for nm in names:
            ops.append(pack("find", nm))
            s = find(nm)
            want.append(s[0] + "=" + s[1] if s else "-")
        if len(stack) == 1:
            break
        ops.append(pack("pop"))
        stack.pop()
    src.key = repr(ops)
    src.sample = "; ".join(show_ops(ops))
    src.nontrivial = shadow and called > 0
    got = env.unit("template_stack", *ops)
    if not isinstance(got, list):
        raise Fail("template_stack threw %r" % (got,))
    got = [g.decode() for g in got]
    if got != want:
        i = next((i for i in range(min(len(got), len(want))) if got[i] != want[i]), -1)
        raise Fail("template scopes: answer %d is %r, expected %r\nafter %s" % (
            i, got[i:i + 1], want[i:i + 1], show_ops(ops)))

def f_cleanup(src, env):
    ops, log, open_, nested, total = [], [], [[]], False, 0
    n = 0
    for _ in src.many(0, 30, 12):
        k = src.weighted([(6, "1"), (3, "2"), (3, "3"), (3, "4"), (2, "("), (3, ")")])
        if k in "1234":
            n += 1
            open_[-1].append(n)
            ops.append(k)
        elif k == "(":
            if len(open_) < 6:
                open_.append([])
                log.append(-2)
                ops.append(k)
                nested = True
        elif len(open_) > 1:
            ops.append(k)
            log += reversed(open_.pop())
            log.append(-3)
    while len(open_) > 1:
        log += reversed(open_.pop())
        log.append(-3)
    log += reversed(open_.pop())
    src.key = repr(ops)
    src.sample = " ".join(ops)
    src.nontrivial = n >= 2
    got = env.unit("cleanup", *ops)
    if not isinstance(got, list):
        raise Fail("cleanup threw %r" % (got,))
    if [int(x) for x in got[0].split()] != log or got[1] != b"0":
        raise Fail("cleanup %s destroyed in the order %s with %s left, expected %s" % (ops, got[0], got[1], log))

PROPERTY = {
    "id": "C27",
    "rule": "buffers pushed at least two deep; a template shadowed by an inner scope and a template entered; at least two objects cleaned up",
    "families": [
        Family("collector", f_collector, 96000, rule="histories of push/pop/write/swap against a stack of strings"),
        Family("templates", f_templates, 180000, rule="definition, scope and call histories against static and dynamic scope chains"),
        Family("cleanup", f_cleanup, 96000, rule="nested cleanups with objects of several types; order of destruction"),
    ],
}
