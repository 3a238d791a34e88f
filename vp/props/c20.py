"""C20: an operation that is interrupted does no lasting harm (fault injection)."""
import os
import struct
from .common import *
from .. import arrays, build
from ..driver import HARNESS, SAN_ENV, summary
from . import c04, c15, c19
from .c17 import FreshDriver

RULE = ("a case is one operation (serialise to or deserialise from every kind of sink and source, including user-supplied and throwing streams, copy, move, swap, compare, clear, "
        "the array functions, or Proto3::parse and generate of the compiler library) on generated objects or texts, repeated with its first, second, third ... allocation, or call of the "
        "stream, failing (once, or persistently from there on) until nothing fails; after each failure the state is examined and the objects are used again; non-trivial: at least three "
        "failure points were hit; distinct by schema and request")
ASSUMPTIONS = ["allocations are those through operator new (the C library's own are not made to fail)", "at most 400 failure points per operation (1200 in the thorough tier)"]

KINDS = ["serialise to a string", "serialise to a vector", "serialise to a std::ostream", "serialise to a user stream", "serialise to a throwing user stream",
         "serialise to a std::ostream that throws", "serialise to a buffer", "deserialise a string", "deserialise a vector", "deserialise a std::istream", "deserialise a buffer",
         "deserialise a user stream", "deserialise a throwing user stream", "deserialise a std::istream that throws", "copy assignment", "copy construction", "move assignment",
         "move construction", "swap", "clear", "compare"]
ARRAY_KINDS = [0, 1, 3, 4, 7, 8, 10, 11, 12, 14, 15, 18, 19]
FIRST = 32


def partitions(ctx):
    return list(range(16 if ctx.quick else 120))


def is_library(part):
    return part % 8 == 6


def driver_for(ctx, part, fresh=False):
    s = arrays.seeded(schema_of(ctx, part, max_msgs=3, max_fields=8))
    return (FreshDriver if fresh else Driver)(s, kind="faults-asan" if part % 8 == 3 else "faults", ext=arrays.ext_code(s))


def fault(o, head, kind, persist, pmode, pflags, limit, text):
    o.b.append(head + struct.pack("<BBBBI", kind, persist, pmode, pflags, limit) + struct.pack("<I", len(text)) + text)
    o.dec.append(lambda r: {"points": r.u32(), "threw": r.u32(), "refused": r.u32(), "carried": r.u32(), "where": r.i32(), "why": r.blob().decode()})


def gen_message(src, s, o, limit, first):
    m = src.pick(s.messages)
    v = V.gen_msg(src, m, [src.pick([6, 3, 15])], present=src.pick([(2, 3), (1, 3), (9, 10)]))
    init = V.gen_msg(src, m, [4]) if src.bool(1, 3) else None
    kind = src.draw(21) if not first else src.pick([0, 7])
    text = b"{}"
    if 7 <= kind < 14 or src.bool():
        if src.bool(1, 3):
            text = c04.gen_text(src, s, m)[0]
        else:
            text = (V.ws(src) + V.render_msg(src, s, m, V.drop_transient(m, V.gen_msg(src, m, [src.pick([6, 3, 15])]))) + V.ws(src)).encode("utf-8")
    o.set(m, 0, v, src.draw(16))
    if init is not None:
        o.set(m, 1, init, src.draw(16))
    else:
        o.new(m, 1)
    persist, pmode, pflags = src.draw(2), int(src.bool(2, 3)), src.draw(32) | (FIRST if first else 0)
    o.b.append(bytes([ord("Y"), m.idx, 1, 0]))
    fault(o, b"", kind, persist, pmode, pflags, limit, text)
    return {"message": m.name, "operation": KINDS[kind], "value": short(v), "text": text, "persistent": bool(persist)}, kind


def gen_array(src, s, o, limit):
    t = src.pick(arrays.types(s))
    vs, init = c15.gen_values(src, t)[:6], c15.gen_values(src, t)[:2] if src.bool(1, 3) else []
    kind = src.pick(ARRAY_KINDS)
    text = c15.render(src, s, t, c15.gen_values(src, t)[:6])
    text = text.encode("utf-8") if isinstance(text, str) else text
    if src.bool(1, 5):
        text = text[:src.draw(len(text) + 1)]
    persist, pmode, pflags = src.draw(2), int(src.bool(2, 3)), src.draw(32)
    b = [bytes([0x80, t.code, src.draw(3), 2, 0]), Ops._pm(0, False, False)]
    for xs in (init, vs):
        b.append(struct.pack("<I", len(xs)))
        for v in xs:
            V.enc_elem(t.f, v, b)
    o.b.append(b"".join(b))
    fault(o, b"", kind, persist, pmode, pflags, limit, text)
    return {"elements": t.kind, "operation": KINDS[kind], "values": short(vs), "text": text, "persistent": bool(persist)}, kind


def maker(ctx, part, drv, tag=""):
    s = drv.s
    limit = 400 if ctx.quick else 1200

    def make(src):
        o = Ops(s)
        array = tag != "first" and src.bool(1, 3)
        told, kind = gen_array(src, s, o, limit) if array else gen_message(src, s, o, limit, tag == "first")

        def check(res):
            r = res[0]
            case.nontrivial = r["threw"] + r["refused"] + r["carried"] >= 3
            if r["why"]:
                return "%s: %s (failure point %d)" % (KINDS[kind], r["why"], r["where"])
            return None
        case = Case(o, check, True, told, [KINDS[kind], "array" if array else "message"])
        return case
    return make


def library_maker(ctx, part):
    exe = build.with_library("san" if part % 16 == 14 else "plain", os.path.join(HARNESS, "treefault.cc"), "treefault")

    def make(src):
        kind, text, _ = c19.gen_text(src)
        persist, flags = src.draw(2), src.draw(8)
        name = raw_text(src.pick(c19.NAMES)) if src.bool() else b"schema.proto"
        data = struct.pack("<IIII", persist, flags, 400 if ctx.quick else 1200, len(text)) + text + struct.pack("<I", len(name)) + name
        def judge():
            import tempfile
            env = dict(build.ENV)
            env.update(SAN_ENV)
            with tempfile.TemporaryFile() as f:
                f.write(data)
                f.seek(0)
                r = build.run([exe], timeout=100, mem=0, cpu=100, env=env, stdin=f)
            if r.timeout:
                return "the library hangs after a failed allocation"
            if r.rc not in (0, 1):
                err = r.err.decode("utf-8", "replace")
                return "the library ends the process after a failed allocation: %s" % (summary(err) or err.strip() or "status %d" % r.rc)[:600]
            return r.out.decode() if r.rc else None
        return Plain(data, True, {"text": text.decode("utf-8", "backslashreplace"), "kind": kind, "flags": flags}, judge, ["library"])
    return make


def run_part(ctx, part, st):
    if is_library(part):
        yield from plain_cases(ctx, part, library_maker(ctx, part), 25 if ctx.quick else 120, st, "library")
        return
    with driver_for(ctx, part) as drv:
        yield from check_cases(ctx, part, drv, maker(ctx, part, drv), 500 if ctx.quick else 1500, st)
        drv.__class__ = FreshDriver
        yield from check_cases(ctx, part, drv, maker(ctx, part, drv, "first"), 20 if ctx.quick else 100, st, "first")


def prepare(ctx):
    for kind in ("plain", "san"):
        build.with_library(kind, os.path.join(HARNESS, "treefault.cc"), "treefault")


def replay(ctx, info):
    part = info["part"]
    if info.get("tag") == "library":
        prepare(ctx)
        return library_maker(ctx, part)(Src(replay=info["choices"])).judge()
    with driver_for(ctx, part, info.get("tag") == "first") as drv:
        c = maker(ctx, part, drv, info.get("tag", ""))(Src(replay=info["choices"]))
        return verdict(c, drv.run([c.ops.data()])[0])
