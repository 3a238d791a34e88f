"""C06: all sinks and sources agree and respect buffer bounds."""
from .common import *
from . import c04

RULE = ("a case is either one object written to every sink (growing sinks with earlier content, buffers of several sizes around the exact one) "
        "or one valid or damaged text read from every source; non-trivial: the text has at least 8 bytes; distinct by schema text and request")
ASSUMPTIONS = ["bounds are watched by guard zones around every buffer and, in every third partition, by AddressSanitizer with exactly sized buffers"]


def partitions(ctx):
    return list(range(24 if ctx.quick else 180))


def driver_for(ctx, part):
    return Driver(schema_of(ctx, part, wide=part % 8 == 7), kind="asan" if part % 3 == 2 else "plain")


def prefix(src):
    return src.weighted([(3, b""), (2, b"x"), (1, b"{\"a\":1}\n"), (1, b"\x00\xff\n\""), (1, b"p" * 300)])


def sinks(src, s, m, big=False):
    v = V.gen_big_msg(src, m) if big else V.gen_msg(src, m, [src.pick([3, 10, 40])], present=src.pick([(2, 3), (1, 3), (9, 10)]))
    mode, asc, null = params(src)
    p1, p2, p3 = prefix(src), prefix(src), prefix(src)
    deltas = [0, -1, -src.int(1, 40), src.int(1, 80), -src.int(1, 600), -(1 << 20)]
    o = Ops(s)
    o.set(m, 0, v, src.draw(16))
    o.ser(m, 0, 0, mode, asc, null)
    o.ser(m, 0, 0, mode, asc, null, p1)
    o.ser(m, 0, 1, mode, asc, null, p2)
    o.ser(m, 0, 2, mode, asc, null, p3)
    for k, p in ((5, p1), (6, p2), (7, p3)):
        o.ser(m, 0, k, mode, asc, null, p)
    for d in deltas:
        o.ser(m, 0, 3, mode, asc, null, d)

    def check(res):
        full = res[0]["out"]
        if not all(r["ok"] for r in res[:7]):
            return "serialisation fails: %r" % [(r["ok"], r["err"]) for r in res[:7]]
        for r, p, name in zip(res[1:7], (p1, p2, p3) * 2, ("string", "vector", "stream", "user's stream", "iterator stream of a deque", "iterator stream of a stream buffer")):
            if r["out"] != p + full:
                return "the %s receives %s instead of %s" % (name, short(r["out"]), short(p + full))
        for r, d in zip(res[7:], deltas):
            n = max(0, len(full) + d)
            if not r["guard"]:
                return "a buffer of %d bytes for %d is written outside its bounds" % (n, len(full))
            k = min(n, len(full))
            if r["out"][:k] != full[:k]:
                return "a buffer of %d bytes receives %s instead of (a prefix of) %s" % (n, short(r["out"][:k]), short(full))
            if d >= 0 and not r["ok"]:
                return "a large enough buffer (%d bytes for %d) is refused" % (n, len(full))
        return None
    return Case(o, check, weight(m, v) >= 1, {"message": m.name, "value": short(v), "deltas": deltas}, ["sinks"])


def sources(src, s, m, big=False):
    if big:
        v = V.drop_transient(m, V.gen_big_msg(src, m))
        text, kind = (V.ws(src) + V.render_msg(src, s, m, v) + V.ws(src)).encode("utf-8"), "big"
        if src.bool(1, 3):
            text = text[:src.draw(len(text) + 1)]
    elif src.bool():
        text, kind = c04.gen_text(src, s, m)
    else:
        v = V.drop_transient(m, V.gen_msg(src, m))
        text, kind = (V.ws(src) + V.render_msg(src, s, m, v) + V.ws(src)).encode("utf-8"), "valid"
    if src.bool(1, 6):
        pad = src.pick([b" ", b"\n", b"\t", b"\r\n", b" \n"]) * src.int(1, 5000)
        i = src.draw(2)
        text = pad + text if i == 0 else text + pad
    if src.bool(1, 8):
        text += src.pick([b"\x00", b"{}", b"x", b"\xff", b"]", b'"', b"\n{", b"nul"])
    mode, asc, null = src.pick([1, 1, 2]), src.bool(), src.bool()
    o = Ops(s)
    for source in range(12):
        o.new(m, 0)
        o.des(m, 0, text, source, mode, asc, null)
        o.dump(m, 0)

    def check(res):
        names = ["string", "vector", "stream", "stream without skipws", "pointer and length", "user's stream", "feed", "iterator stream of a list", "iterator stream of a stream buffer", "pipe", "pipe without skipws",
                 "stream already read in part"]
        first, value = res[0], res[1]
        for i in range(12):
            r, got = res[2 * i], res[2 * i + 1]
            if not r["restored"]:
                return "the flags of the %s are not restored" % names[i]
            if r["ok"] != first["ok"]:
                return "%s gives %s but %s gives %s for %s" % (names[0], first["ok"], names[i], r["ok"], short(text))
            a, b = r["err"], first["err"]
            if (a["code"], a["line"], a["col"]) != (b["code"], b["line"], b["col"]):
                return "%s reports %r but %s reports %r for %s" % (names[0], b, names[i], a, short(text))
            if r["ok"] and not V.same(got, value):
                return "%s gives %s but %s gives %s for %s" % (names[0], short(value), names[i], short(got), short(text))
        return None
    return Case(o, check, len(text) >= 8, {"message": m.name, "text": text}, ["sources", kind])


def maker(ctx, part, drv, tag=""):
    s = drv.s

    def make(src):
        m = src.pick(s.messages)
        return sinks(src, s, m, tag == "big") if src.bool() else sources(src, s, m, tag == "big")
    return make


def run_part(ctx, part, st):
    with driver_for(ctx, part) as drv:
        yield from check_cases(ctx, part, drv, maker(ctx, part, drv), 300 if ctx.quick else 1500, st)
        yield from check_cases(ctx, part, drv, maker(ctx, part, drv, "big"), 5 if ctx.quick else 20, st, "big")


def replay(ctx, info):
    return replay_driver(__import__(__name__, fromlist=["x"]), ctx, info)
