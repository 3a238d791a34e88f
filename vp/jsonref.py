"""Reference reader: what deserialising a text into a message must give.

read(s, m, text) returns an Outcome:
  kind "ok":  the text must be accepted; .value is the expected message value (numbers may be OneOf)
  kind "err": the text must be refused; .pos is the set of acceptable (line, column) pairs
  kind "any": the documentation leaves the result open (invalid UTF-8 in strings, null inside a numeric array,
              a decimal next to the largest float); the call must still return
.free: the value is not determined (repeated member), only acceptance is
Written from RFC 8259 and the properties, not from the implementation.
"""
import base64
import math
import re
import struct

from . import values as V
from .schema import INT_TYPES

OBJS, OBJE, ARRS, ARRE, COLON, COMMA, STR, NUM, TRUE, FALSE, NULL, BAD, EOS = range(13)
SINGLE = {0x7b: OBJS, 0x7d: OBJE, 0x5b: ARRS, 0x5d: ARRE, 0x3a: COLON, 0x2c: COMMA}
NUMBER = re.compile(rb"-?(0|[1-9][0-9]*)(\.[0-9]+)?([eE][+-]?[0-9]+)?\Z")
LETTERS = set(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ")
NUMCHARS = set(b"0123456789.eE+-")
HEX = set(b"0123456789abcdefABCDEF")
ESC = {0x22: 0x22, 0x5c: 0x5c, 0x2f: 0x2f, 0x62: 8, 0x66: 12, 0x72: 13, 0x6e: 10, 0x74: 9}


class OneOf:
    __slots__ = ("alts",)

    def __init__(self, alts):
        self.alts = alts

    def __repr__(self):
        return "OneOf(%r)" % (self.alts,)


def matches(exp, got):
    if isinstance(exp, OneOf):
        return any(V.same(a, got) for a in exp.alts)
    if isinstance(exp, list):
        return isinstance(got, list) and len(exp) == len(got) and all(map(matches, exp, got))
    return V.same(exp, got)


class Tok:
    __slots__ = ("id", "val", "line", "col", "span", "odd")

    def __init__(self, id_, line, col, val=None, span=1, odd=False):
        self.id, self.val, self.line, self.col, self.span, self.odd = id_, val, line, col, span, odd


def tokenize(b):
    """All tokens up to the first bad one or the end."""
    i, n = 0, len(b)
    line, start = 1, 0
    while True:
        while i < n and b[i] in b" \t\r\n":
            if b[i] == 10:
                line += 1
                start = i + 1
            i += 1
        col = i - start + 1
        if i >= n:
            yield Tok(EOS, line, col)
            return
        c = b[i]
        if c in SINGLE:
            yield Tok(SINGLE[c], line, col)
            i += 1
        elif c == 0x22:
            r = string(b, i)
            if r is None:
                yield Tok(BAD, line, col)
                return
            val, j = r
            odd = False
            try:
                val.decode("utf-8")
            except UnicodeDecodeError:
                odd = True
            yield Tok(STR, line, col, val, j - i, odd)
            i = j
        elif c == 0x2d or 0x30 <= c <= 0x39:
            j = i
            while j < n and b[j] in NUMCHARS:
                j += 1
            if NUMBER.match(b[i:j]):
                yield Tok(NUM, line, col, b[i:j], j - i)
            else:
                yield Tok(BAD, line, col, None, j - i + 1)
                return
            i = j
        else:
            j = i
            while j < n and b[j] in LETTERS:
                j += 1
            w = b[i:j]
            t = {b"true": TRUE, b"false": FALSE, b"null": NULL}.get(w)
            if t is None:
                yield Tok(BAD, line, col, None, 1)
                return
            yield Tok(t, line, col, None, j - i)
            i = j


def string(b, i):
    """(value, end) of the literal that starts at b[i], or None."""
    out = bytearray()
    n = len(b)
    i += 1
    lead = None
    while i < n:
        c = b[i]
        if lead is not None and b[i:i + 2] != b"\\u":
            return None
        if c == 0x22:
            return bytes(out), i + 1
        if c < 0x20:
            return None
        if c != 0x5c:
            out.append(c)
            i += 1
            continue
        if i + 1 >= n:
            return None
        e = b[i + 1]
        if e == 0x75:
            h = b[i + 2:i + 6]
            if len(h) != 4 or any(x not in HEX for x in h):
                return None
            u = int(h, 16)
            i += 6
            if lead is not None:
                if not 0xdc00 <= u <= 0xdfff:
                    return None
                out += chr(0x10000 + ((lead - 0xd800) << 10) + (u - 0xdc00)).encode()
                lead = None
            elif 0xd800 <= u <= 0xdbff:
                lead = u
            elif 0xdc00 <= u <= 0xdfff:
                return None
            else:
                out += chr(u).encode()
        elif e in ESC:
            out.append(ESC[e])
            i += 2
        else:
            return None
    return None


class Fail(Exception):
    def __init__(self, tok):
        self.tok = tok


class Open(Exception):
    """The result is not determined."""


class Outcome:
    __slots__ = ("kind", "value", "pos", "free", "why")

    def __init__(self, kind, value=None, pos=None, free=False, why=""):
        self.kind, self.value, self.pos, self.free, self.why = kind, value, pos, free, why


def split_number(t):
    """(negative, digits without surrounding zeros, exponent): value = digits * 10**exponent"""
    neg = t[:1] == b"-"
    if neg:
        t = t[1:]
    m = re.match(rb"([0-9]+)(?:\.([0-9]+))?(?:[eE]([+-]?[0-9]+))?\Z", t)
    ip, fp, ex = m.group(1), m.group(2) or b"", m.group(3) or b"0"
    if len(ex.lstrip(b"+-0")) > 15:
        e = -(10 ** 15) if ex.startswith(b"-") else 10 ** 15
    else:
        e = int(ex)
    e -= len(fp)
    d = (ip + fp).lstrip(b"0")
    k = len(d) - len(d.rstrip(b"0"))
    d = d.rstrip(b"0")
    if not d:
        return neg, b"", 0
    return neg, d, e + k


def to_int(t, typ):
    """Exact value, or None when the type cannot hold it."""
    _, signed, bits = INT_TYPES[typ]
    neg, d, e = split_number(t)
    if not d:
        return 0
    if e < 0 or len(d) + e > 20:
        return None
    v = int(d) * 10 ** e
    if neg:
        v = -v
    lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
    return v if lo <= v <= hi else None


FLT_MAX = (2 ** 24 - 1) * 2 ** 104
FLT_TIE = (2 ** 25 - 1) * 2 ** 103
DBL_TIE = (2 ** 54 - 1) * 2 ** 970


def magnitude_cmp(t, bound):
    """sign of |value| - bound for an integer bound"""
    _, d, e = split_number(t)
    if not d:
        return -1
    top = len(d) + e      # 10**(top-1) <= value < 10**top
    nb = len(str(bound))
    if top != nb:
        return 1 if top > nb else -1
    if e >= 0:
        v, w = int_of(d) * 10 ** e, bound
    else:
        if len(d) > 3000:
            return None
        v, w = int_of(d), bound * 10 ** -e
    return (v > w) - (v < w)


def int_of(d):
    return int(d) if len(d) < 4000 else int(d[:4000]) * 10 ** (len(d) - 4000)


def to_float(t, typ):
    """value, None when out of range; raises Open at the very edge"""
    if typ == "double":
        c = magnitude_cmp(t, DBL_TIE)
        if c is None:
            raise Open
        return None if c >= 0 else float(t)
    c = magnitude_cmp(t, FLT_TIE)
    if c is None:
        raise Open
    if c >= 0:
        return None
    if magnitude_cmp(t, FLT_MAX) > 0:
        raise Open
    v = float(t)
    w = V.f32(v)
    if w is None:
        raise Open
    if math.isinf(w):
        raise Open
    # the decimal may lie on the other side of a tie than the double nearest to it
    bits = struct.unpack("<I", struct.pack("<f", abs(w)))[0]
    alts = [w]
    for b in (bits - 1, bits + 1):
        if 0 <= b < 0x7f800000:
            u = math.copysign(struct.unpack("<f", struct.pack("<I", b))[0], v)
            # exactly between the neighbours in double precision
            if (u + w) / 2 == v and u != w:
                alts.append(u)
    return w if len(alts) == 1 else OneOf(alts)


class Reader:
    def __init__(self, s, text):
        self.s = s
        self.it = tokenize(text)
        self.free = False
        self.tok = next(self.it)

    def next(self):
        if self.tok.id in (EOS, BAD):
            return
        if self.tok.odd:
            raise Open
        self.tok = next(self.it)

    def expect(self, id_):
        if self.tok.id != id_:
            raise Fail(self.tok)
        v = self.tok.val
        self.next()
        return v

    def skip(self):
        """Any well-formed value."""
        closing = []
        while True:
            t = self.tok.id
            if t == OBJS:
                self.next()
                if self.tok.id != OBJE:
                    closing.append(OBJE)
                    self.expect(STR)
                    self.expect(COLON)
                    continue
                self.next()
            elif t == ARRS:
                self.next()
                if self.tok.id != ARRE:
                    closing.append(ARRE)
                    continue
                self.next()
            elif t in (STR, NUM, TRUE, FALSE, NULL):
                self.next()
            else:
                raise Fail(self.tok)
            while closing and self.tok.id == closing[-1]:
                self.next()
                closing.pop()
            if not closing:
                return
            self.expect(COMMA)
            if closing[-1] == OBJE:
                self.expect(STR)
                self.expect(COLON)

    def element(self, f, old):
        k = f.kind
        t = self.tok
        if k == "message":
            return self.message(f.ref, old)
        if k == "bool":
            if t.id not in (TRUE, FALSE):
                raise Fail(t)
            self.next()
            return t.id == TRUE
        if k in ("string", "bytes"):
            if t.id != STR:
                raise Fail(t)
            if t.odd:
                raise Open
            v = t.val
            if k == "bytes":
                v = unbase64(v)
                if v is None:
                    raise Fail(t)
            self.next()
            return v
        if t.id != NUM:
            raise Fail(t)
        v = to_int(t.val, f.type) if k == "int" else to_float(t.val, f.type)
        if v is None:
            raise Fail(t)
        self.next()
        return v

    def field(self, f, old):
        t = self.tok
        if t.id == NULL:
            self.next()
            return old
        if not f.repeated:
            return self.element(f, old)
        self.expect(ARRS)
        out = list(old)
        if self.tok.id == ARRE:
            self.next()
            return out
        while True:
            if self.tok.id == NULL:
                if f.kind in ("int", "bool", "double", "float"):
                    raise Open
                self.next()
                out.append({"string": None, "bytes": b""}.get(f.kind, V.empty_msg(f.ref) if f.kind == "message" else None))
            else:
                out.append(self.element(f, V.empty_msg(f.ref) if f.kind == "message" else None))
            if self.tok.id == ARRE:
                self.next()
                return out
            self.expect(COMMA)

    def message(self, m, old):
        self.expect(OBJS)
        out = list(old)
        if self.tok.id == OBJE:
            self.next()
            return out
        names = {self.s.jname(f).encode("utf-8"): i for i, f in enumerate(m.fields) if not f.transient}
        seen = set()
        while True:
            name = self.expect(STR)
            self.expect(COLON)
            i = names.get(name)
            if i is None:
                self.skip()
            else:
                if i in seen:
                    self.free = True
                seen.add(i)
                out[i] = self.field(m.fields[i], out[i])
            if self.tok.id == OBJE:
                self.next()
                return out
            self.expect(COMMA)


B64 = re.compile(rb"(?:[A-Za-z0-9+/]{4})*(?:[A-Za-z0-9+/]{2}==|[A-Za-z0-9+/]{3}=)?\Z")


def unbase64(v):
    if not B64.match(v):
        return None
    out = base64.b64decode(v)
    if base64.b64encode(out) != v:
        raise Open      # non-zero padding bits
    return out


class _Top(Reader):
    def next(self):
        # nothing after the top-level value matters
        try:
            Reader.next(self)
        except StopIteration:
            pass


def run(s, text, fn):
    r = _Top(s, text)
    try:
        v = fn(r)
    except Open:
        return Outcome("any")
    except Fail as e:
        t = e.tok
        pos = {(t.line, t.col)}
        if t.id == BAD and t.span > 1:
            # a malformed number: anywhere within its characters
            pos = {(t.line, t.col + k) for k in range(t.span)}
        return Outcome("err", pos=pos, why="token %d" % t.id)
    return Outcome("ok", value=v, free=r.free)


def read(s, m, text, old=None):
    def fn(r):
        if r.tok.id == NULL:
            raise Fail(r.tok)
        return r.message(m, V.empty_msg(m) if old is None else V.copy_value(old))
    return run(s, text, fn)


class ArrField:
    """A stand-in field for the array helpers."""

    def __init__(self, type_, ref=None):
        self.type, self.ref, self.repeated, self.transient = type_, ref, True, False
        self.kind = type_ if type_ in ("string", "bytes", "message", "bool", "double", "float") else "int"


def read_array(s, f, text):
    def fn(r):
        if r.tok.id == NULL:
            raise Fail(r.tok)
        return r.field(f, [])
    return run(s, text, fn)
