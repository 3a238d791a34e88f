"""C18: serialisation fails loudly when a value has no JSON form."""
import math
from .common import *
from . import c02

RULE = ("a case is one object, with or without unrepresentable leaves (NaN, infinities, invalid UTF-8) at chosen depths, serialised to one sink and followed by "
        "a second call with the same parameters; non-trivial: the object has an unrepresentable leaf, a sink refuses data, or it has two or more present leaves; "
        "distinct by schema text and request")
ASSUMPTIONS = ["strings that are not valid UTF-8 are not required to be refused without ensure_ascii"]


def partitions(ctx):
    return list(range(24 if ctx.quick else 180))


def driver_for(ctx, part):
    # numbers and strings dominate
    types = None if part % 2 else ["double", "float", "string", "double", "string", "int32", "bytes"]
    return Driver(schema_of(ctx, part, types=types, wide=part % 8 == 7))


def leaves(m, v, path=(), live=True):
    """(list holding the leaf, index, field, live)"""
    for i, f in enumerate(m.fields):
        here = live and not f.transient
        if f.kind == "message":
            for e in (v[i] if f.repeated else [v[i]]):
                yield from leaves(f.ref, e, path, here)
        elif f.repeated:
            for j in range(len(v[i])):
                yield v[i], j, f, here
        elif v[i] is not None:
            yield v, i, f, here


def bad_leaf(f, x, asc):
    if x is None:
        return False
    if f.kind in ("double", "float"):
        return not math.isfinite(x)
    if f.kind == "string" and asc:
        try:
            x.decode("utf-8")
        except UnicodeDecodeError:
            return True
    return False


def maker(ctx, part, drv, tag=""):
    s = drv.s

    def make(src):
        m = src.pick(s.messages)
        v = V.gen_msg(src, m, [src.pick([6, 20, 60])], present=src.pick([(2, 3), (9, 10), (1, 3)]))
        mode, asc, null = src.weighted([(3, 1), (2, 2), (2, 0)]), src.bool(), src.bool()
        if mode == 0:
            asc = null = False
        spots = [l for l in leaves(m, v) if l[2].kind in ("double", "float", "string")]
        for _ in range(src.weighted([(2, 1), (3, 0), (1, 2)]) if spots else 0):
            where, i, f, _ = src.pick(spots)
            if f.kind == "string":
                where[i] = poison_utf8(src, where[i] or b"")
            else:
                where[i] = src.pick([float("nan"), float("inf"), float("-inf")])
        bad = any(live and bad_leaf(f, w[i], asc) for w, i, f, live in leaves(m, v))
        odd = any(live and bad_leaf(f, w[i], True) for w, i, f, live in leaves(m, v))
        sink = src.weighted([(3, 0), (2, 1), (2, 2), (3, 3), (3, 4)])
        arg = b""
        if sink == 3:
            arg = src.weighted([(2, 0), (3, -1), (2, -src.int(1, 60)), (1, src.int(1, 50)), (1, -(1 << 20))])
        elif sink == 4:
            arg = src.draw(120)
        o = Ops(s)
        o.set(m, 0, v, src.draw(16))
        o.ser(m, 0, 0, mode, asc, null)
        o.ser(m, 0, sink, mode, asc, null, arg)
        # the same parameters afterwards
        after = V.gen_msg(src, m, [6])
        o.set(m, 1, after)
        o.ser(m, 1, 0, 1 if mode else 0, asc, null)

        def one(r, full, limit):
            fits = limit is None or limit >= len(full)
            if r["ok"]:
                if bad:
                    return "an object with an unrepresentable part is serialised as %s" % short(r["out"])
                if not fits:
                    return "serialisation into %d of %d bytes succeeds" % (limit, len(full))
                if not clean(r["err"]):
                    return "serialisation succeeds but leaves an error: %r" % (r["err"],)
                if not odd:
                    return c02.judge(s, m, v, r["out"][:len(full)] if sink == 3 else r["out"], asc, null)
                return None
            if not bad and fits:
                return "a representable object is not serialised: %r" % (r["err"],)
            e = r["err"]
            if e is not None and (e["code"] == 0 or not e["msg"]):
                return "a failed serialisation reports no error: %r" % (e,)
            if e is not None and (e["msg"] == b"stale" or (e["line"], e["col"]) == (77, 88)):
                return "a failed serialisation reports an earlier error: %r" % (e,)
            return None

        def check(res):
            full, r, r2 = res
            n = len(full["out"])
            limit = max(0, n + arg) if sink == 3 else arg if sink == 4 else None
            why = one(full, full["out"], None)
            if not why and not (bad and sink >= 3):
                why = one(r, full["out"], limit)
            elif not why and r["ok"]:
                why = "an object with an unrepresentable part is serialised to a limited sink"
            if why:
                return why
            if not r2["ok"] or not clean(r2["err"]):
                return "a later call with the same parameters fails or has old error information: %r" % (r2["err"],)
            return c02.judge(s, m, after, r2["out"], asc, null)
        return Case(o, check, bad or sink >= 3 or weight(m, v) >= 2, {"message": m.name, "value": short(v), "params": [mode, asc, null], "sink": sink, "limit": short(arg)},
                    ["bad" if bad else "representable", "sink%d" % sink, "ascii" if asc else "raw"])
    return make


def run_part(ctx, part, st):
    with driver_for(ctx, part) as drv:
        yield from check_cases(ctx, part, drv, maker(ctx, part, drv), 400 if ctx.quick else 2000, st)


def replay(ctx, info):
    return replay_driver(__import__(__name__, fromlist=["x"]), ctx, info)
