"""Values of schema messages: generation, binary encoding for the driver, JSON model and random JSON renderings.

A message value is a list parallel to message.fields:
  numbers, bool: None (absent) or int/float/bool     string: None or UTF-8 bytes     bytes: bytes (b'' = absent)
  message: a message value (absent = all absent)     repeated: list of element values (element strings are bytes)
"""
import base64
import math
import struct

from .schema import INT_TYPES

# ---------------------------------------------------------------- generation


def f32(x):
    """Nearest float, or None when out of range."""
    try:
        return struct.unpack("<f", struct.pack("<f", x))[0]
    except OverflowError:
        return None


def gen_int(src, typ):
    _, signed, bits = INT_TYPES[typ]
    lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
    k = src.draw(8)
    if k < 2:
        v = src.draw(20)
    elif k == 2:
        v = src.pick([0, 1, hi, lo, hi - 1, lo + 1, 10, 9, 99, 100, 1000, 1 << 31, (1 << 31) - 1, 1 << 32, 1 << 53, (1 << 53) + 1])
    elif k < 5:
        v = (1 << src.draw(bits)) + src.int(-1, 1)
    elif k == 5:
        v = 10 ** src.draw(20) + src.int(-1, 1)
    else:
        v = src.draw(1 << src.int(1, bits))
    if signed and src.bool(1, 3):
        v = -v
    return min(max(v, lo), hi)


def gen_float(src, typ):
    k = src.draw(9)
    if k == 0:
        v = float(src.draw(10))
    elif k == 1:
        v = src.int(-1000000, 1000000) / 10.0 ** src.draw(8)
    elif k == 2:
        v = src.pick([0.0, -0.0, 1.0, 0.1, 0.5, 1e-7, 1e-6, 1.5e-5, 123456789.125, 1e21, 1e22, 1e15, 1e16, 123456.789, 5e-324,
                      2.2250738585072014e-308, 1.7976931348623157e308, 3.4028234663852886e38, 1.1754943508222875e-38,
                      1.401298464324817e-45, 9007199254740993.0, 0.3, 1 / 3.0, 3.141592653589793, 16777217.0, 1e100, 4.35])
    elif k == 3:
        v = 2.0 ** src.int(-1074, 1023)
    elif k == 4:
        v = 10.0 ** src.int(-300, 300)
    elif k == 5:
        v = float(src.draw(1 << src.int(1, 62)))
    elif k == 6:
        v = 2.0 ** src.int(-140, 127) * (1 + src.draw(1 << 23) / float(1 << 23))
    else:
        v = struct.unpack("<d", struct.pack("<Q", src.draw(1 << 64)))[0]
    if src.bool(1, 3):
        v = -v
    if not math.isfinite(v):
        v = 1.0
    if typ == "float":
        w = f32(v)
        if w is None or not math.isfinite(w):
            bits = src.draw(1 << 31)
            w = struct.unpack("<f", struct.pack("<I", bits))[0]
            if not math.isfinite(w):
                w = 2.5
        v = w
    return v


EDGE_CPS = [0, 1, 7, 8, 9, 10, 11, 12, 13, 0x1f, 0x20, 0x22, 0x27, 0x2f, 0x5c, 0x7e, 0x7f, 0x80, 0x9f, 0xa0, 0xff, 0x100, 0x7ff,
            0x800, 0xfff, 0x1000, 0x2028, 0x2029, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x10001, 0x103ff,
            0x10400, 0x1f600, 0xfffff, 0x100000, 0x10fffe, 0x10ffff]


def gen_cp(src):
    k = src.draw(10)
    if k < 4:
        return src.int(0x61, 0x7a)
    if k < 6:
        return src.int(0x20, 0x7e)
    if k == 6:
        return src.pick(EDGE_CPS)
    if k == 7:
        return src.draw(0x20)
    if k == 8:
        c = src.int(0x80, 0xffff)
        return c if not 0xd800 <= c <= 0xdfff else 0x4e2d
    return src.int(0x10000, 0x10ffff)


def gen_text(src, mean=5):
    k = src.draw(40)
    if k < 3:
        return ""
    if k == 39:
        # long: repeat a short pattern
        base = "".join(chr(gen_cp(src)) for _ in range(src.int(1, 9)))
        return base * src.int(1, 400)
    if k == 38:
        return src.pick(["null", "true", "{}", "[1]", "\\u0041", "\"", "\\", "\\\"", "//", "$1$", "%s", "\\n", "\u0000", "a\u0000b",
                         "</script>", "é", "이주영", "𑙤", "\r\n", "0", "{\"a\":1}", "*/", "\\\\", "\ufeff"])
    return "".join(chr(c) for c in src.list(mean, 60, gen_cp))


def gen_string(src, mean=5):
    return gen_text(src, mean).encode("utf-8")


def gen_bytes(src):
    k = src.draw(12)
    if k == 0:
        return b""
    if k == 11:
        pat = bytes(src.draw(256) for _ in range(src.int(1, 7)))
        return (pat * 200)[:src.int(1, 1000)]
    if k == 10:
        return src.pick([b"\0", b"\0\0", b"\0\0\0", b"\xff", b"\xff\xff", b"\xff\xff\xff", b"\xfb\xef\xbe", b"\xff\xfe\xfd\xfc", b"=", b"hello"])
    return bytes(src.list(6, 40, lambda s: s.draw(256)))


def gen_scalar(src, f):
    k = f.kind
    if k == "int":
        return gen_int(src, f.type)
    if k == "bool":
        return src.bool()
    if k in ("double", "float"):
        return gen_float(src, f.type)
    if k == "string":
        return gen_string(src)
    if k == "bytes":
        return gen_bytes(src)
    raise AssertionError(k)


def gen_msg(src, m, budget=None, present=(2, 3)):
    """budget: mutable [remaining nodes] to bound nested repetition."""
    if budget is None:
        budget = [src.pick([20, 40, 40, 120])]
    if m.depth > 6 and src.bool():
        return spine(src, m)
    out = []
    for f in m.fields:
        budget[0] -= 1
        here = budget[0] > 0 and src.bool(*present)
        if f.repeated:
            if not here:
                out.append([])
            elif f.kind == "message":
                out.append(src.list(1.5, 6, lambda s: gen_msg(s, f.ref, budget, present)))
            else:
                lst = src.list(2, 12, lambda s: gen_scalar(s, f))
                budget[0] -= len(lst)
                out.append(lst)
        elif f.kind == "message":
            out.append(gen_msg(src, f.ref, budget, present) if here else empty_msg(f.ref))
        elif f.kind == "bytes":
            out.append(gen_bytes(src) if here else b"")
        else:
            out.append(gen_scalar(src, f) if here else None)
    return out


def spine(src, m):
    """A value that goes down to the deepest message."""
    out = []
    down = max(f.ref.depth if f.ref is not None else 0 for f in m.fields)
    done = False
    for f in m.fields:
        if f.kind == "message" and f.ref.depth == down and not done and down:
            done = True
            v = spine(src, f.ref)
            if is_empty(f.ref, v):
                v = gen_msg(src, f.ref, [3], (1, 1))
            out.append([v, copy_value(v)] if f.repeated and down < 5 and src.bool() else [v] if f.repeated else v)
        elif src.bool(1, 3) and f.kind != "message":
            x = gen_scalar(src, f)
            out.append([x] if f.repeated else x)
        else:
            out.append(empty_value(f))
    return out


BIG = [128, 255, 256, 257, 127, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8192, 10000, 16384, 32767, 32768, 32769, 65535, 65536, 65537, 70000, 100000, 131072]


def gen_big_msg(src, m):
    """A small value in which one string, bytes or repeated field (at any depth) is as long as common limits of buffers and counters."""
    v = gen_msg(src, m, [src.pick([8, 20])], present=(2, 3))
    enlarge(src, m, v)
    return v


def cycle(src, items, n):
    return (items * (n // len(items) + 1))[:n]


def enlarge(src, m, v):
    order = src.shuffle(range(len(m.fields)))
    order.sort(key=lambda i: m.fields[i].transient is True)
    for i in order:
        f = m.fields[i]
        if f.kind == "message" and (not f.repeated or (v[i] and src.bool(1, 3))):
            j = src.draw(len(v[i])) if f.repeated else 0
            if enlarge(src, f.ref, v[i][j] if f.repeated else v[i]):
                return True
            continue
        n = src.pick(BIG)
        if f.repeated and not (f.kind in ("string", "bytes") and src.bool(1, 3)):
            if f.kind == "message":
                base = [gen_msg(src, f.ref, [4]) for _ in range(src.int(1, 3))]
                # nested lists would multiply
                n = min(n, 300000 // (1 + max(len(repr(b)) for b in base)))
                v[i] = [copy_value(x) for x in cycle(src, base, n)]
            else:
                base = [gen_scalar(src, f) for _ in range(src.int(1, 4))]
                if f.kind in ("string", "bytes"):
                    base = [x[:20] if f.kind == "bytes" else b"s" * (len(x) % 7) for x in base]
                v[i] = cycle(src, base, n)
            return True
        if f.kind in ("string", "bytes"):
            if f.kind == "string":
                pat = [chr(gen_cp(src)) for _ in range(src.int(1, 5))]
                x = ("".join(chr(gen_cp(src)) for _ in range(src.draw(4))) + "".join(cycle(src, pat, n)) + "".join(chr(gen_cp(src)) for _ in range(src.draw(3)))).encode("utf-8")
            else:
                x = bytes(cycle(src, [src.draw(256) for _ in range(src.int(1, 7))], n))
            v[i] = [x] if f.repeated else x
            return True
    return False


def empty_value(f):
    if f.repeated:
        return []
    if f.kind == "message":
        return empty_msg(f.ref)
    if f.kind == "bytes":
        return b""
    return None


def empty_msg(m):
    return [empty_value(f) for f in m.fields]


def is_absent(f, v):
    if f.repeated:
        return not v
    if f.kind == "message":
        return all(is_absent(g, x) for g, x in zip(f.ref.fields, v))
    if f.kind == "bytes":
        return not v
    return v is None


def is_empty(m, v):
    return all(is_absent(f, x) for f, x in zip(m.fields, v))


def copy_value(v):
    if isinstance(v, list):
        return [copy_value(x) for x in v]
    return v


def drop_transient(m, v):
    out = []
    for f, x in zip(m.fields, v):
        if f.transient:
            out.append(empty_value(f))
        elif f.kind == "message":
            out.append([drop_transient(f.ref, e) for e in x] if f.repeated else drop_transient(f.ref, x))
        else:
            out.append(copy_value(x))
    return out


def same(a, b):
    """Value equality with exact numbers (-0.0 equals 0.0, as the library's == does; types must agree)."""
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(map(same, a, b))
    if a is None or b is None:
        return a is None and b is None
    return type(a) is type(b) and a == b


# ---------------------------------------------------------------- driver encoding

def enc_elem(f, v, out):
    k = f.kind
    if k == "int":
        out.append(struct.pack("<q" if INT_TYPES[f.type][1] else "<Q", v))
    elif k == "bool":
        out.append(struct.pack("<Q", int(v)))
    elif k in ("double", "float"):
        out.append(struct.pack("<d", v))
    elif k == "string":
        if v is None:
            out.append(b"\0")
        else:
            out.append(b"\1" + struct.pack("<I", len(v)) + v)
    elif k == "bytes":
        out.append(struct.pack("<I", len(v)) + v)
    else:
        enc_msg(f.ref, v, out)


def enc_field(f, v, out):
    if f.repeated:
        out.append(struct.pack("<I", len(v)))
        for e in v:
            enc_elem(f, e, out)
    elif f.kind in ("string", "bytes", "message"):
        enc_elem(f, v, out)
    elif v is None:
        out.append(b"\0")
    else:
        out.append(b"\1")
        enc_elem(f, v, out)


def enc_msg(m, v, out):
    for f, x in zip(m.fields, v):
        enc_field(f, x, out)


def encode(m, v):
    out = []
    enc_msg(m, v, out)
    return b"".join(out)


class Rd:
    __slots__ = ("b", "p")

    def __init__(self, b):
        self.b, self.p = b, 0

    def u8(self):
        self.p += 1
        return self.b[self.p - 1]

    def u32(self):
        v = struct.unpack_from("<I", self.b, self.p)[0]
        self.p += 4
        return v

    def i32(self):
        v = struct.unpack_from("<i", self.b, self.p)[0]
        self.p += 4
        return v

    def q(self, fmt):
        v = struct.unpack_from(fmt, self.b, self.p)[0]
        self.p += 8
        return v

    def blob(self):
        n = self.u32()
        v = self.b[self.p:self.p + n]
        if len(v) != n:
            raise ValueError("short driver response")
        self.p += n
        return bytes(v)


def dec_elem(f, r):
    k = f.kind
    if k == "int":
        return r.q("<q" if INT_TYPES[f.type][1] else "<Q")
    if k == "bool":
        return bool(r.q("<Q"))
    if k in ("double", "float"):
        return r.q("<d")
    if k == "string":
        return r.blob() if r.u8() else None
    if k == "bytes":
        return r.blob()
    return dec_msg(f.ref, r)


def dec_field(f, r):
    if f.repeated:
        return [dec_elem(f, r) for _ in range(r.u32())]
    if f.kind in ("string", "bytes", "message"):
        return dec_elem(f, r)
    return dec_elem(f, r) if r.u8() else None


def dec_msg(m, r):
    return [dec_field(f, r) for f in m.fields]


# ---------------------------------------------------------------- JSON renderings

SHORT = {0x22: '\\"', 0x5c: "\\\\", 0x2f: "\\/", 8: "\\b", 12: "\\f", 10: "\\n", 13: "\\r", 9: "\\t"}


def uesc(src, u):
    h = "%04x" % u
    return "\\u" + "".join(c.upper() if src.bool(1, 3) else c for c in h)


def render_text(src, text, plain=(3, 4)):
    """A random valid JSON string literal for text (a str without lone surrogates)."""
    out = ['"']
    style = src.draw(4)   # 0: minimal escapes, 1: mixed, 2: all \\u, 3: mixed
    for ch in text:
        c = ord(ch)
        must = c < 0x20 or c in (0x22, 0x5c)
        if style == 0 and not must:
            out.append(ch)
            continue
        if style == 2 or (style in (1, 3) and src.bool(1, 3)) or must:
            if c in SHORT and src.bool(1, 2):
                out.append(SHORT[c])
            elif c < 0x10000:
                out.append(uesc(src, c))
            else:
                d = c - 0x10000
                out.append(uesc(src, 0xd800 + (d >> 10)) + uesc(src, 0xdc00 + (d & 0x3ff)))
        else:
            out.append(ch)
    out.append('"')
    return "".join(out)


def ws(src, density=(1, 3)):
    if not src.bool(*density):
        return ""
    return "".join(src.list(1.2, 6, lambda s: s.pick(" \n\t\r"), lo=1))


def render_float(src, v, typ):
    """A decimal rendering that reads back (correctly rounded) as v."""
    k = src.draw(6)
    r = repr(v)
    if typ == "float" and k == 5:
        s = "%.9g" % v
    elif k == 1:
        s = "%.17e" % v
    elif k == 2:
        s = "%.17E" % v
    elif k == 3 and abs(v) < 1e16 and v == int(v) and not (v == 0 and math.copysign(1, v) < 0):
        s = str(int(v))
    elif k == 4 and 1e-5 < abs(v) < 1e15:
        s = "%.25f" % v
    else:
        s = r
    if "e+" in s and src.bool():
        s = s.replace("e+", "e")
    if src.bool(1, 6):
        s = s.replace("e", "E")
    return s


def render_int(src, v):
    """A number that denotes v."""
    if not src.bool(1, 5):
        return str(v)
    k = src.draw(6)
    e = src.pick("eE")
    if k == 0:
        return str(v) + "." + "0" * src.int(1, 4)
    if k == 1:
        return str(v) + e + src.pick(["0", "+0", "-0", "00"])
    if k == 2 and v:
        z = src.int(1, 5)
        return str(v) + "0" * z + e + "-" + str(z)
    d = str(abs(v))
    p = src.int(1, len(d))
    t = d[:p] + ("." + d[p:] if d[p:] else "") + e + src.pick(["", "+"]) + str(len(d) - p)
    if k == 3:
        t = "0." + d + e + str(len(d))
    return ("-" if v < 0 or (v == 0 and src.bool()) else "") + t


def render_elem(src, s, f, v, extras):
    k = f.kind
    if k == "int":
        return render_int(src, v)
    if k == "bool":
        return "true" if v else "false"
    if k in ("double", "float"):
        return render_float(src, v, f.type)
    if k == "string":
        return render_text(src, v.decode("utf-8"))
    if k == "bytes":
        t = base64.b64encode(v).decode()
        return render_text(src, t) if src.bool(1, 4) else '"' + t + '"'
    return render_msg(src, s, f.ref, v, extras)


def gen_json(src, depth=4):
    """An arbitrary JSON value as text."""
    k = src.draw(8 if depth > 0 else 6)
    if k == 0:
        return "null"
    if k == 1:
        return src.pick(["true", "false"])
    if k == 2:
        return str(src.int(-1000, 1000))
    if k == 3:
        return src.pick(["0", "-0", "1.5", "-2.5e10", "1E-5", "0.0", "1e+3", "123456789012345678901234567890", "-1e400", "0e0", "1e-999"])
    if k <= 5:
        return render_text(src, gen_text(src, 4))
    if k == 6:
        items = src.list(1.5, 5, lambda q: ws(q) + gen_json(q, depth - 1) + ws(q))
        return "[" + (",".join(items) if items else ws(src)) + "]"
    items = src.list(1.5, 5, lambda q: ws(q) + render_text(q, gen_text(q, 3)) + ws(q) + ":" + ws(q) + gen_json(q, depth - 1) + ws(q))
    return "{" + (",".join(items) if items else ws(src)) + "}"


def unknown_name(src, s, m):
    known = set(s.jname(f) for f in m.fields if not f.transient)
    cand = []
    for f in m.fields:
        n = s.jname(f)
        cand += [n + "x", n[:-1], n.upper(), f.name, str(f.number), n + "\0", " " + n, n.lower(), "_" + n]
        if f.transient:
            cand += [n, n]
    k = src.draw(3)
    n = src.pick(cand) if cand and k < 2 else gen_text(src, 3)
    while n in known:
        n += "~"
    return n


def render_msg(src, s, m, v, extras=True):
    """A random JSON object text denoting message value v (transient fields of v must be absent)."""
    members = []
    for f, x in zip(m.fields, v):
        if f.transient:
            continue
        name = s.jname(f)
        if is_absent(f, x) and not (f.repeated or f.kind in ("bytes", "message")):
            if extras and src.bool(1, 8):
                members.append((name, "null"))
            continue
        if is_absent(f, x):
            k = src.draw(4) if extras else 0
            if k == 0 or (k == 3 and f.kind == "message" and not f.repeated and False):
                continue
            if k == 1:
                members.append((name, "null"))
                continue
        if f.repeated:
            items = [ws(src) + render_elem(src, s, f, e, extras) + ws(src) for e in x]
            members.append((name, "[" + (",".join(items) if items else ws(src)) + "]"))
        else:
            members.append((name, render_elem(src, s, f, x, extras)))
    if extras:
        for _ in range(src.weighted([(6, 0), (3, 1), (1, 3)])):
            members.append((unknown_name(src, s, m), gen_json(src)))
    if src.bool():
        members = src.shuffle(members)
    parts = []
    for n, t in members:
        lit = render_text(src, n) if src.bool(1, 4) else render_text(Zero, n)
        parts.append(ws(src) + lit + ws(src) + ":" + ws(src) + t + ws(src))
    return "{" + (",".join(parts) if parts else ws(src)) + "}"


class _Zero:
    """A source that always makes the simplest choice."""

    def draw(self, n):
        return 0

    def bool(self, *a):
        return False

    def pick(self, seq):
        return seq[0]


Zero = _Zero()
