"""C17: distinct objects can be used from different threads (thread sanitizer, and comparison with running alone)."""
import os
from .common import *
from .. import arrays
from ..driver import Driver
from . import c04, c15, c16

RULE = ("a case is a set of 2 to 6 threads with generated operation lists (serialise, deserialise, round trip, copy, swap, compare, clear, array helpers, own locale) on their own objects "
        "and read-only uses of one shared object per type, started together in a fresh process under ThreadSanitizer (or as an optimised build), whose answers are compared with running the "
        "same lists one after the other; non-trivial: at least two threads serialise or deserialise; distinct by schema and request")
ASSUMPTIONS = ["races are what ThreadSanitizer sees in the executed interleavings (it needs the two accesses, not their coincidence)",
               "an object that several threads only read is used through const operations, serialisation, comparison and as the source of copies"]
SHARED = 3


class FreshDriver(Driver):
    """Every case runs in a process of its own, so that first uses happen concurrently."""

    def run(self, cases, timeout=60, case_timeout=20):
        out = []
        for c in cases:
            out += super().run([c], timeout, case_timeout)
        return out


def partitions(ctx):
    return list(range(16 if ctx.quick else 120))


def prepare(ctx):
    c16.prepare(ctx)


def driver_for(ctx, part):
    s = arrays.seeded(schema_of(ctx, part, max_msgs=3, max_fields=8))
    return FreshDriver(s, kind="tsan" if part % 8 != 7 else "threads", ext=arrays.ext_code(s), env={"LOCPATH": c16.LOCALES})


def thread_ops(src, s, ts):
    o = Ops(s)
    told = []
    active = False
    if src.bool(1, 10):
        name = src.pick(c16.NAMES)
        o.locale(4, name)
        told.append("uselocale " + name)
    for _ in range(src.int(1, 6)):
        m = src.pick(s.messages)
        mode, asc, null = params(src)
        k = src.draw(9)
        if k == 0:
            v = V.gen_msg(src, m, [12])
            o.set(m, 0, v, src.draw(16))
            o.ser(m, 0, src.draw(3), mode, asc, null)
            told.append("serialise own")
            active = True
        elif k == 1:
            o.ser(m, SHARED, src.pick([0, 1, 2, 0]), mode, asc, null)
            told.append("serialise shared")
            active = True
        elif k == 2:
            o.new(m, 1)
            o.round(m, SHARED, 1, src.draw(5), mode, asc, null)
            o.eq(m, SHARED, 1)
            told.append("round trip of shared")
            active = True
        elif k in (3, 4):
            text = c04.gen_text(src, s, m)[0] if src.bool() else V.render_msg(src, s, m, V.drop_transient(m, V.gen_msg(src, m, [12]))).encode("utf-8")
            o.new(m, 2)
            o.des(m, 2, text, src.draw(5), max(1, mode), False, False)
            o.dump(m, 2)
            told.append("deserialise")
            active = True
        elif k == 5:
            o.two(src.pick("KC"), m, 0, SHARED)
            o.dump(m, 0)
            o.eq(m, 0, SHARED)
            told.append("copy shared")
        elif k == 6:
            o.two(src.pick("CKW"), m, 0, src.draw(3))
            o.empty(m, 0)
            if src.bool(1, 3):
                o.clear(m, 1)
            o.eq(m, 0, 1)
            told.append("copy or swap own")
        elif k == 7:
            t = src.pick(ts)
            vs = c15.gen_values(src, t)
            arrays.ser(o, t, src.draw(3), src.draw(3), vs, mode, asc, null)
            told.append("serialise array")
            active = True
        else:
            t = src.pick(ts)
            text = c15.render(src, s, t, c15.gen_values(src, t))
            arrays.des(o, t, src.draw(3), src.draw(4), text.encode("utf-8") if isinstance(text, str) else text, max(1, mode), False, False)
            told.append("deserialise array")
            active = True
    return o, told, active


def maker(ctx, part, drv, tag=""):
    s = drv.s
    ts = arrays.types(s)

    def make(src):
        o = Ops(s)
        for m in s.messages:
            o.set(m, SHARED, V.gen_msg(src, m, [15]), src.draw(16))
        n = src.int(2, 6)
        parts, told, active = [], [], 0
        same = src.bool(1, 3)
        for i in range(n):
            if same and parts:
                # many threads doing the very same thing
                parts.append(parts[0])
                told.append("the same")
                active += 1
                continue
            p, t, a = thread_ops(src, s, ts)
            parts.append(p)
            told.append(t)
            active += 1 if a else 0
        o.parallel(parts, True)
        o.parallel(parts, False)

        def check(res):
            for i, (a, b) in enumerate(zip(*res)):
                if a != b:
                    try:
                        x, y = parts[i].decode(a), parts[i].decode(b)
                    except Exception:
                        x, y = a, b
                    return "thread %d gets another result than alone: %s instead of %s" % (i, short(x), short(y))
            return None
        return Case(o, check, active >= 2, {"threads": told}, ["%d threads" % n])
    return make


def run_part(ctx, part, st):
    with driver_for(ctx, part) as drv:
        yield from check_cases(ctx, part, drv, maker(ctx, part, drv), 60 if ctx.quick else 400, st)


def replay(ctx, info):
    return replay_driver(__import__(__name__, fromlist=["x"]), ctx, info)
