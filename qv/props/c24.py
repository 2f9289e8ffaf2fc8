"""C24 Escaping for XML, URIs and identifiers."""
from ..engine import Family, Fail

XML_ALPHA = ["a", "&", "<", ">", '"', "'", ";", "#", "x", "amp", "&amp;", "&lt;", "&gt;", "&quot;", "&apos;",
             "&#", "&#x", "3c", "60", "lt;", "é", "\u20ac", "\U0001f600", "\n", "\t", " ", "\0", "\x7f", "Z", "]]>"]
CANON = {ord("<"): b"&lt;", ord(">"): b"&gt;", ord("&"): b"&amp;", ord('"'): b"&quot;"}

def raw(src, alpha, hi=24):
    out = bytearray()
    for _ in src.many(0, hi, 7):
        k = src.draw(len(alpha))
        if k < len(alpha):
            out += alpha[k].encode()
        else:
            out.append(src.draw(255))
    return bytes(out)

def ref_decode(s):
    out = bytearray()
    i = 0
    names = [(b"amp;", 38), (b"apos;", 39), (b"gt;", 62), (b"lt;", 60), (b"quot;", 34)]
    def utf(n):
        if n < 0x80:
            return bytes([n])
        if 0xD800 <= n < 0xE000:
            return None
        return chr(n).encode() if n < 0x110000 else "\ufffd".encode()
    while i < len(s):
        if s[i] == 38:
            rest = s[i + 1:]
            done = False
            for base, pre, digs in ((16, b"#x", b"0123456789abcdefABCDEF"), (10, b"#", b"0123456789")):
                if rest.startswith(pre):
                    j = len(pre)
                    while j < len(rest) and rest[j] in digs:
                        j += 1
                    if j > len(pre):
                        n = int(rest[len(pre):j], base)
                        if n > 0xffffffff:
                            return None      # overflow: outside the property
                        u = utf(n)
                        if u is None:
                            return None
                        out += u
                        i += 1 + j + (1 if rest[j:j + 1] == b";" else 0)
                        done = True
                        break
            if done:
                continue
            for name, c in names:
                if rest.startswith(name):
                    out.append(c)
                    i += 1 + len(name)
                    done = True
                    break
            if done:
                continue
        out.append(s[i])
        i += 1
    return bytes(out)

def f_encode(src, env):
    x = raw(src, XML_ALPHA)
    src.sample = repr(x)
    src.key = x
    src.nontrivial = any(c in b'<>&"' or c > 127 for c in x)
    enc, = env.unit("encode_string", x)
    want = b"".join(CANON.get(c, bytes([c])) for c in x)
    if enc != want:
        raise Fail("encode_string(%r) = %r, expected %r" % (x, enc, want))
    dec, = env.unit("decode_string", enc)
    if dec != x:
        raise Fail("decode(encode(%r)) = %r" % (x, dec))
    s, c = env.unit("print_string", x)
    if s != want or c != want:
        raise Fail("print_string(%r) = %r, print_char gives %r, expected %r" % (x, s, c, want))

def f_decode(src, env):
    x = raw(src, XML_ALPHA)
    want = ref_decode(x)
    src.sample = repr(x)
    src.key = x
    src.nontrivial = b"&" in x and want is not None and want != x
    dec, = env.unit("decode_string", x)
    if want is not None and dec != want:
        raise Fail("decode_string(%r) = %r, expected %r" % (x, dec, want))

def f_charref(src, env):
    """Numeric references over the whole code point range."""
    n = src.weighted([(3, 0), (1, 1), (1, 2), (1, 3), (1, 4), (1, 5)])
    lo, hi = [(1, 0x7f), (0x80, 0x7ff), (0x800, 0xd7ff), (0xe000, 0xffff), (0x10000, 0x10ffff), (0x110000, 0x7fffffff)][n]
    edge = src.int(0, 3)
    cp = lo if edge == 1 else hi if edge == 2 else src.int(lo, hi)
    hexa = src.bool()
    semi = src.bool(0.8)
    tail = src.pick(["", " ", "g", ";", "<", "&amp;"])
    body = ("&#x%x" if hexa else "&#%d") % cp
    if src.bool():
        body = body.upper().replace("&#X", "&#x")
    x = (src.pick(["", "a", "&", "&#"]) + body + (";" if semi else "") + tail).encode()
    want = ref_decode(x)
    src.sample = repr(x)
    src.key = x
    src.nontrivial = True
    dec, = env.unit("decode_string", x)
    if want is not None and dec != want:
        raise Fail("decode_string(%r) = %r, expected %r" % (x, dec, want))

URI_ALPHA = ["a", "Z", "0", "9", "%", "%4", "%41", "%zz", "%C3%A9", "/", ":", "?", "&", "=", "#", "+", " ", "\\", "[", "]",
             "<", ">", '"', "'", "(", ")", "*", "!", "~", "_", "-", ".", "@", "$", ",", ";", "|", "^", "`", "{", "}",
             "é", "\u20ac", "\x7f", "\0", "\n", "%2", "f", "g"]
UNRES = set(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.!~*'()/")
PART = UNRES | set(b"?\\:&=#+")
HEX = set(b"0123456789abcdefABCDEF")

def esc(c):
    return b"%%%02x" % c

def unescape(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == 37 and i + 2 < len(s) + 0 and s[i + 1] in HEX and s[i + 2] in HEX:
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(s[i])
            i += 1
    return bytes(out)

def f_uri(src, env):
    x = raw(src, URI_ALPHA)
    src.sample = repr(x)
    src.key = x
    src.nontrivial = any(c not in UNRES for c in x)
    e, = env.unit("escape_uri", x)
    want = b"".join(bytes([c]) if c in UNRES else esc(c) for c in x)
    if e.lower() != want.lower() or unescape(e) != x:
        raise Fail("escape_uri(%r) = %r, expected %r" % (x, e, want))
    # everything not an escape is as given
    p, = env.unit("partially_escape_uri", x)
    wantp = bytearray()
    for i, c in enumerate(x):
        if c == 37:
            ok = len(x) > i + 2 and x[i + 1] in HEX and x[i + 2] in HEX
            wantp += b"%" if ok else b"%25"
        elif c in PART:
            wantp.append(c)
        else:
            wantp += esc(c)
    if p.lower() != bytes(wantp).lower() or unescape(p) != unescape(x):
        raise Fail("partially_escape_uri(%r) = %r, expected %r" % (x, p, bytes(wantp)))
    p2, = env.unit("partially_escape_uri", p)
    if p2 != p:
        raise Fail("partially_escape_uri is not stable: %r -> %r -> %r" % (x, p, p2))

def f_ident(src, env):
    x = raw(src, URI_ALPHA)
    src.sample = repr(x)
    src.key = x
    src.nontrivial = len(x) > 1
    i, = env.unit("make_identifier", x)
    want = bytes((c + 32 if 65 <= c <= 90 else c) if (48 <= c <= 57 or 65 <= c <= 90 or 97 <= c <= 122) else 95 for c in x)
    if i != want:
        raise Fail("make_identifier(%r) = %r, expected %r" % (x, i, want))
    j, = env.unit("make_identifier", i)
    if j != i:
        raise Fail("make_identifier is not stable: %r -> %r -> %r" % (x, i, j))

def f_bytes(src, env):
    """Every byte value in every position of a short string."""
    a = bytes([src.int(0, 255)])
    pre = src.pick([b"", b"x", b"%", b"&", b"%4"])
    post = src.pick([b"", b"1", b"zz", b";", b"41"])
    x = pre + a + post
    src.key = x
    src.nontrivial = True
    src.sample = repr(x)
    enc, = env.unit("encode_string", x)
    if enc != b"".join(CANON.get(c, bytes([c])) for c in x):
        raise Fail("encode_string(%r) = %r" % (x, enc))
    e, = env.unit("escape_uri", x)
    if unescape(e) != x or any(c not in UNRES and c != 37 for c in e):
        raise Fail("escape_uri(%r) = %r" % (x, e))
    p, = env.unit("partially_escape_uri", x)
    if unescape(p) != unescape(x) or any(c not in PART and c != 37 for c in p):
        raise Fail("partially_escape_uri(%r) = %r" % (x, p))
    i, = env.unit("make_identifier", x)
    if len(i) != len(x) or any(c not in b"abcdefghijklmnopqrstuvwxyz0123456789_" for c in i):
        raise Fail("make_identifier(%r) = %r" % (x, i))

PROPERTY = {
    "id": "C24",
    "rule": "a case is non-trivial when its text holds at least one character that the function must change "
            "(or, for decoding, an entity that decodes)",
    "families": [
        Family("encode", f_encode, 144000, rule="byte strings over entities, fragments of entities, UTF-8 and raw bytes"),
        Family("decode", f_decode, 144000, rule="entity soup against a reference decoder"),
        Family("charref", f_charref, 72000, rule="numeric references at and between the UTF-8 length boundaries"),
        Family("uri", f_uri, 144000, rule="URI escaping against the escape table, decoded back, and stability"),
        Family("identifier", f_ident, 96000),
        Family("bytes", f_bytes, 72000, rule="all 256 byte values in small contexts"),
    ],
}
