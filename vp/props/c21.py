"""C21: time and memory in proportion to the size of the value or text."""
import struct

from .common import *
from .. import arrays
from . import c15

RULE = ("a case is one operation (serialise to or deserialise from any kind of sink and source, copy, assign, compare, clear, swap, and the array functions) on a value or text built around "
        "n repetitions of a generated unit and on the same with n/16 repetitions; processor time (lowest of three), highest and total memory allocated are compared; non-trivial: the larger "
        "one has 64 KiB or more; distinct by schema and request")
ASSUMPTIONS = ["growth is observed between n/16 and n, n up to about 200,000 repetitions or 1 MB (3 MB in the thorough tier)", "small amounts (0.25 s, 8 MiB) are left out"]

OPS = ["serialise to a string", "serialise to a vector", "serialise to a std::ostream", "serialise to a user stream", "serialise to a buffer", "serialise with nulls", "deserialise a string",
       "deserialise a vector", "deserialise a std::istream", "deserialise a buffer", "deserialise a user stream", "deserialise twice", "copy construction", "copy assignment", "comparison",
       "clear", "swap"]
WS = [" ", "\n", "\t", "\r\n", "\r", " \n\t"]
TEXT = ["a", "é", "\U0001F600", "\\n", "\\u0041", "\\ud83d\\ude00", "\\\"", "\\\\", "\\u0000", "\\/", "ab\\tcd", "\u20ac", "%", "\x7f", "\\u00e9", "?", "\\ud800", "\\x", "\udcff"]
DEEP = [("[", "]"), ('{"a":', "}"), ('[{"b":[', "]}]"), ("[1,", "]"), ('{"a":1,"b":', "}"), ("[[],", "]"), ('[""],[', "]")]


def partitions(ctx):
    return list(range(12 if ctx.quick else 80))


def driver_for(ctx, part):
    # (optimised code of long chains takes long to compile)
    s = arrays.seeded(schema_of(ctx, part, max_msgs=4, max_fields=8, deep=16 if part % 24 == 10 else False))
    return Driver(s, kind="growth", ext=arrays.ext_code(s))


class Family:
    """A text (or value) for each number of repetitions."""

    def __init__(self, what, build, unit):
        self.what, self.build, self.unit = what, build, max(1, unit)


def lit(n):
    return V.render_text(V.Zero, n)


def place(src, s, m):
    """(message, text before, text after): somewhere in an object of message m."""
    before, after = "", ""
    while True:
        down = [f for f in m.fields if f.kind == "message" and not f.transient]
        if not down or src.bool(1, 2):
            return m, before, after
        f = src.pick(down)
        others = ""
        if src.bool(1, 3):
            others = lit("~" + f.name) + ":" + V.gen_json(src, 2) + ","
        before += "{" + others + lit(s.jname(f)) + ":" + ("[" if f.repeated else "")
        after = ("]" if f.repeated else "") + "}" + after
        m = f.ref


def plain_elem(src, s, f):
    return V.render_elem(src, s, f, elem(src, f), False)


def elem(src, f):
    if f.kind == "message":
        return V.drop_transient(f.ref, V.gen_msg(src, f.ref, [4]))
    return V.gen_scalar(src, f)


def text_family(src, s, m0, array=None):
    """Families of texts for message m0, or for arrays of f."""
    if array is not None and (array.message is None or src.bool()):
        f = array.f
        k = src.draw(3)
        if k == 0:
            unit = "null" if src.bool(1, 8) else plain_elem(src, s, f)
            sep = "," + V.ws(src)
            return Family("elements", lambda n: "[" + sep.join([unit] * n) + "]", len(unit) + len(sep))
        if k == 1:
            unit = src.pick(WS)
            e = plain_elem(src, s, f)
            a, b = src.pick([("", "[" + e + "]"), ("[", e + "]"), ("[" + e, "]"), ("[" + e + ",", e + "]"), ("[", "]")])
            return Family("white space", lambda n: a + unit * n + b, len(unit))
        if f.kind == "string":
            unit = src.pick(TEXT)
            return Family("text", lambda n: '["' + unit * n + '"]', len(unit))
        unit = src.pick("10")
        a, b = src.pick([("[1", "]"), ("[0.", "1]"), ("[1e", "]"), ("[1e-", "]"), ("[-", "]")])
        return Family("digits", lambda n: a + unit * n + b, 1)
    m, before, after = place(src, s, m0 if array is None else array.message)
    if array is not None:
        before, after = "[" + before, after + "]"
    fields = [f for f in m.fields if not f.transient]
    k = src.draw(8)
    cut = src.weighted([(6, None), (1, ""), (1, "\x01"), (1, "]"), (1, "}")])

    def wrap(what, a, unit, b, size=None):
        def build(n):
            if callable(unit):
                body = "".join(unit(i) for i in range(n))
            else:
                body = unit * n
            if cut is not None:
                return before + a + body + cut
            return before + a + body + b + after
        return Family(what if cut is None else what + ", cut", build, size or len(unit))
    if k == 0:
        doc = V.render_msg(src, s, m, V.empty_msg(m), True)
        e = src.pick([("", doc), ("{", '"~":1}'), ('{"~"', ":1}"), ('{"~":', "1}"), ('{"~":1', "}"), ('{"~":[', "1]}"), ('{"~":[1,', "1]}"), ('{"~":{', "}}"), ("{", "}"), (doc, "")])
        unit = src.pick(WS)
        return wrap("white space", e[0], unit, e[1])
    if k == 1:
        # members: the same one, or different unknown ones
        if fields and src.bool():
            f = src.pick(fields)
            v = plain_elem(src, s, f) if not src.bool(1, 6) else "null"
            if f.repeated and v != "null":
                v = "[" + v + "]"
            unit = lit(s.jname(f)) + ":" + v + ","
            return wrap("one member", "{", unit, '"~":0}')
        v = V.gen_json(src, 2)
        if src.bool():
            return wrap("unknown members", "{", '"~":' + v + ",", '"~":0}')
        return wrap("different unknown members", "{", lambda i: '"~%d":%s,' % (i, v), '"~":0}', len(v) + 8)
    if k == 2:
        reps = [f for f in fields if f.repeated]
        if reps:
            f = src.pick(reps)
            name = lit(s.jname(f))
            unit = plain_elem(src, s, f)
            null = src.bool(1, 8)
        else:
            name, unit, null = '"~"', V.gen_json(src, 2), False
        unit = ("null" if null else unit) + V.ws(src) + ","
        return wrap("elements", "{" + name + ":[", unit, unit[:-1] + "]}")
    if k == 3 or k == 4:
        strs = [f for f in fields if f.kind == "string"]
        unit = src.pick(TEXT)
        if strs and k == 3:
            f = src.pick(strs)
            a, b = "{" + lit(s.jname(f)) + ":" + ("[" if f.repeated else "") + '"', '"' + ("]" if f.repeated else "") + "}"
        else:
            a, b = src.pick([('{"~":"', '"}'), ('{"', '":1}'), ('{"~":["', '"]}'), ('{"~":{"', '":0}}')])
        return wrap("text", a, unit, b)
    if k == 5:
        nums = [f for f in fields if f.kind in ("int", "float", "double") or f.kind == "bool"]
        if nums and src.bool(3, 4):
            f = src.pick(nums)
            a, b = "{" + lit(s.jname(f)) + ":" + ("[" if f.repeated else ""), ("]" if f.repeated else "") + "}"
        else:
            a, b = '{"~":', "}"
        c, d = src.pick([("1", ""), ("0.", "1"), ("1e", ""), ("1e-", ""), ("-", ""), ("1.", "e5"), ("0e", "1")])
        return wrap("digits", a + c, src.pick("0019"), d + b)
    if k == 6:
        byts = [f for f in fields if f.kind == "bytes"]
        if byts:
            f = src.pick(byts)
            a, b = "{" + lit(s.jname(f)) + ":" + ("[" if f.repeated else "") + '"', '"' + ("]" if f.repeated else "") + "}"
            unit = src.pick(["QUJD", "AAAA", "/+/+", "\\/A\\u0041B", "QQ==", "A", "!", "=", "\\u0041"])
            return wrap("base64", a, unit, src.pick(["", "QQ==", "QUI=", "*"]) + b)
    if k == 7 and src.bool(1, 3):
        # not a keyword
        a, b = src.pick([("", ""), ("{", ":1}"), ('{"~":', "}"), ('{"~":1', "}"), ('{"~":[', "]}"), ('{"~":tru', "}")])
        return wrap("letters", a, src.pick(["a", "Z", "null", "true", "x_"]), b)
    o, c = src.pick(DEEP)
    closed = src.bool()
    name = lit(s.jname(src.pick(fields))) if fields and src.bool(1, 3) else '"~"'
    return Family("nesting", lambda n: before + "{" + name + ":" + o * n + ("1" + c * n + "}" + after if closed else ""), len(o) + len(c))


def big_field(src, m):
    """A path to a field that can be long: list of (message, index)."""
    idx = [i for i, f in enumerate(m.fields) if f.repeated or f.kind in ("string", "bytes", "message")]
    while idx:
        i = src.pick(idx)
        idx.remove(i)
        f = m.fields[i]
        if f.kind == "message" and (not f.repeated or src.bool(1, 3)):
            p = big_field(src, f.ref)
            if p:
                return [(m, i)] + p
            if not f.repeated:
                continue
        return [(m, i)]
    return None


def value_family(src, m):
    path = big_field(src, m)
    if path is None:
        return None
    f = path[-1][0].fields[path[-1][1]]
    items = f.repeated and (f.kind not in ("string", "bytes") or src.bool())
    if items:
        base = [V.gen_msg(src, f.ref, [4]) if f.kind == "message" else V.gen_scalar(src, f) for _ in range(src.int(1, 3))]
        make = lambda n: V.cycle(V.Zero, base, n)
        unit = max(len(repr(b)) for b in base) if f.kind in ("message", "string", "bytes") else 4
    elif f.kind == "string":
        pat = "".join(chr(V.gen_cp(src)) for _ in range(src.int(1, 4))).encode("utf-8")
        make = lambda n: [pat * n] if f.repeated else pat * n
        unit = len(pat)
    else:
        pat = bytes(src.draw(256) for _ in range(src.int(1, 5)))
        make = lambda n: [pat * n] if f.repeated else pat * n
        unit = len(pat)
    around = V.gen_msg(src, m, [5])

    def build(n):
        v = V.copy_value(around)
        at = v
        for q, i in path[:-1]:
            g = q.fields[i]
            if g.repeated:
                at[i] = [V.empty_msg(g.ref)]
                at = at[i][0]
            else:
                at = at[i]
        at[path[-1][1]] = make(n)
        return v
    return Family("%d levels, %s %s" % (len(path), "repeated" if items else "long", f.kind), build, unit)


def request(o, head, op, flags, text):
    o.b.append(head + struct.pack("<BBI", op, flags, len(text)) + text)
    o.dec.append(lambda r: {"ok": r.u8(), "time": r.q("<d"), "peak": r.q("<Q"), "total": r.q("<Q"), "size": r.q("<Q")})


def raw(t):
    return t.encode("utf-8", "surrogateescape")


def maker(ctx, part, drv, tag=""):
    s = drv.s
    cap = (1000 if ctx.quick else 2500) << 10
    most = 100000 if ctx.quick else 400000

    def make(src):
        o = Ops(s)
        flags = src.draw(8)
        array = src.bool(1, 3)
        m = src.pick(s.messages)
        t = src.pick(arrays.types(s)) if array else None
        reading = src.bool(3, 5)
        op = src.pick([6, 7, 9, 10] if array else [6, 7, 8, 9, 10, 11]) if reading else src.pick([0, 1, 3, 5, 12, 13, 14, 15, 16] if array else [0, 1, 2, 3, 4, 5, 12, 13, 14, 15, 16])
        container = src.draw(3)
        if reading:
            fam = text_family(src, s, m, t)
        elif array:
            base = [b for b in c15.gen_values(src, t)[:4]] or [V.gen_msg(src, t.message, [8]) if t.message is not None else V.gen_scalar(src, t.f)]
            fam = Family("array", lambda n: V.cycle(V.Zero, base, n), max(4, max(len(repr(b)) for b in base)))
        else:
            fam = value_family(src, m)
        if fam is None:
            o.new(m, 0)
            return Case(o, lambda res: None, False, {}, ["nothing to repeat"])
        n = min(cap // fam.unit, most if not reading else cap)
        if fam.what.startswith("nesting"):
            n = min(n, 150000)
        if fam.what == "array" or "repeated" in fam.what:
            n = min(n, cap // 4 // fam.unit)
        n = max(32, n * src.int(2, 4) // 4)
        for k in (n // 16, n):
            x = fam.build(k)
            text = raw(x) if reading else b""
            if array:
                b = [bytes([0x80, t.code, container, 2, 0]), Ops._pm(0, False, False), struct.pack("<I", 0 if reading else len(x))]
                if not reading:
                    for e in x:
                        V.enc_elem(t.f, e, b)
                o.b.append(b"".join(b))
                request(o, b"", op, flags, text)
            else:
                if reading:
                    o.new(m, 0)
                else:
                    o.set(m, 0, x)
                request(o, bytes([ord("G"), m.idx, 0]), op, flags, text)
                o.new(m, 0)

        def check(res):
            a, b = res
            what = "%s, %s, for %d and %d repetitions" % (OPS[op], fam.what, n // 16, n)
            if b["time"] > 0.25 and b["time"] > 48 * (a["time"] + 0.004):
                return "the time is out of proportion: %.3f s and %.3f s (%s)" % (a["time"], b["time"], what)
            for k in ("peak", "total"):
                if b[k] > (8 << 20) and b[k] > 48 * (a[k] + 65536):
                    return "the memory is out of proportion (%s): %d and %d KiB (%s)" % (k, a[k] >> 10, b[k] >> 10, what)
            return None
        told = {"operation": OPS[op], "family": fam.what, "repetitions": n, "message": m.name if not array else t.kind, "start": short(raw(fam.build(2)) if reading else fam.build(2), 300)}
        return Case(o, check, n * fam.unit >= 65536, told, [OPS[op], "array" if array else "message", fam.what.split(",")[0] if reading else "value"])
    return make


def run_part(ctx, part, st):
    with driver_for(ctx, part) as drv:
        for chunk in range((8 if part % 24 == 10 else 16) if ctx.quick else 64):
            found = False
            for v in check_cases(ctx, part, drv, maker(ctx, part, drv), 10, st, "chunk%d" % chunk):
                found = True
                yield v
            if found:
                # such cases take long
                return


def replay(ctx, info):
    import sys
    return replay_driver(sys.modules[__name__], ctx, info)
