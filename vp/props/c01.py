"""C01: serialise-then-deserialise is the identity."""
from .common import *

RULE = ("a case is one object of a generated message type, serialised and read back under one parameter setting and one source; "
        "non-trivial: at least two present non-transient leaves; distinct by schema text and request")


def partitions(ctx):
    return list(range(24 if ctx.quick else 220))


def driver_for(ctx, part):
    # every eighth schema is wide (50 to 64 fields)
    s = schema_of(ctx, part, wide=part % 8 == 7)
    return Driver(s)


def maker(ctx, part, drv, tag=""):
    s = drv.s

    def make(src):
        m = src.pick(s.messages)
        v = V.gen_big_msg(src, m) if tag == "big" else with_null_elements(src, m, V.gen_msg(src, m, present=src.pick([(2, 3), (9, 10), (1, 3)])))
        mode, asc, null = params(src)
        source = src.draw(5)
        style = src.draw(132)
        o = Ops(s)
        o.set(m, 0, v, style)
        o.round(m, 0, 1, source, mode, asc, null)
        o.dump(m, 1)
        bare = V.drop_transient(m, v)
        o.set(m, 2, bare, 0)
        o.eq(m, 2, 1)
        o.dump(m, 0)

        def check(res):
            r, got, eq, orig = res
            if not V.same(v, orig):
                return "the object does not hold the values assigned to it: %s instead of %s" % (short(orig), short(v))
            if not r["ok"]:
                return "serialisation fails: %s" % (r["err"],)
            if not clean(r["err"]):
                return "serialisation succeeds but leaves an error: %s" % (r["err"],)
            if not r["ok2"]:
                return "the serialised text is not accepted: %s %s" % (short(r["out"]), r["err2"])
            if not clean(r["err2"]):
                return "deserialisation succeeds but leaves an error: %s" % (r["err2"],)
            if not V.same(bare, got):
                return "round trip through %s gives %s instead of %s" % (short(r["out"]), short(got), short(bare))
            if eq != (True, False, True):
                return "the object read back does not compare equal (==, !=, equal: %s) via %s" % (eq, short(r["out"]))
            return None
        return Case(o, check, weight(m, v) >= 2, {"message": m.name, "value": short(v), "params": [mode, asc, null], "source": source, "style": style},
                    ["source%d" % source, "ascii" if asc else "raw", "nulls" if null else "no nulls"])
    return make


def run_part(ctx, part, st):
    with driver_for(ctx, part) as drv:
        yield from check_cases(ctx, part, drv, maker(ctx, part, drv), 300 if ctx.quick else 1500, st)
        yield from check_cases(ctx, part, drv, maker(ctx, part, drv, "big"), 6 if ctx.quick else 25, st, "big")


def replay(ctx, info):
    return replay_driver(__import__(__name__, fromlist=["x"]), ctx, info)
