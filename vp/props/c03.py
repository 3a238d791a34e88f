"""C03: any valid JSON rendering of a value is decoded to that value."""
import re
from .common import *

UNKNOWN = b"no field has this name"
EMPTY = re.compile(rb"\s*\{\s*\}\s*$")

RULE = ("a case is one random rendering (layout, member order, escapes, number notation, unknown, null and transient members) of one value, "
        "read into a fresh object from one source; non-trivial: at least two present leaves; distinct by schema text and request")


def partitions(ctx):
    return list(range(24 if ctx.quick else 220))


def driver_for(ctx, part):
    return Driver(schema_of(ctx, part, wide=part % 8 == 7))


def maker(ctx, part, drv, tag=""):
    s = drv.s

    def make(src):
        m = src.pick(s.messages)
        v = V.drop_transient(m, V.gen_big_msg(src, m) if tag == "big" else V.gen_msg(src, m, present=src.pick([(2, 3), (1, 3), (9, 10)])))
        text = (V.ws(src) + V.render_msg(src, s, m, v) + V.ws(src)).encode("utf-8")
        if tag == "big" and src.bool(1, 3):
            # long insignificant or unknown parts
            n = src.pick(V.BIG)
            k = src.draw(4)
            text = (src.pick([b" ", b"\n", b"\t \r\n"]) * n + text if k == 0 else b'{"%s":%s%s%s' % (UNKNOWN, b"[" * n, b"]" * n, b"," * (text.strip() != b"{}") + text.strip()[1:].lstrip()) if k == 1 and not EMPTY.match(text) else
                    b'{"%s":[%s]}' % (UNKNOWN, b",".join([b"1", b'"x"', b"null", b"{}"] * (n // 4 + 1))) if k == 2 and EMPTY.match(text) else
                    b'{"%s":"%s"%s' % (UNKNOWN, b"x" * n, b"," + text.strip()[1:]) if not EMPTY.match(text) else b'{"%s":1}' % (UNKNOWN * (n // len(UNKNOWN) + 1)))
        source = src.draw(5)
        mode, asc, null = params(src)
        o = Ops(s)
        o.new(m, 0)
        o.des(m, 0, text, source, mode, asc, null)
        o.dump(m, 0)

        def check(res):
            r, got = res
            if not r["ok"]:
                return "a valid document is refused: %s %r" % (short(text), r["err"])
            if not clean(r["err"]):
                return "an accepted document leaves an error: %r" % (r["err"],)
            if not V.same(v, got):
                return "%s is read as %s instead of %s" % (short(text), short(got), short(v))
            return None
        return Case(o, check, weight(m, v) >= 2, {"message": m.name, "text": text, "source": source}, ["source%d" % source])
    return make


def run_part(ctx, part, st):
    with driver_for(ctx, part) as drv:
        yield from check_cases(ctx, part, drv, maker(ctx, part, drv), 500 if ctx.quick else 2500, st)
        yield from check_cases(ctx, part, drv, maker(ctx, part, drv, "big"), 6 if ctx.quick else 25, st, "big")


def replay(ctx, info):
    return replay_driver(__import__(__name__, fromlist=["x"]), ctx, info)
