"""C15: array helpers agree with element-wise serialisation."""
import math
from .common import *
from .. import arrays, jsonref
from . import c02, c04

RULE = ("a case is one container (vector, list or deque of messages, numbers, booleans or strings) serialised and read back, or one valid or damaged array text read "
        "through one source; non-trivial: at least two elements, or a damaged text refused after its first token; distinct by schema text and request")
ASSUMPTIONS = ["null inside an array of numbers or of std::string is left open", "the container is empty before deserialisation"]


def partitions(ctx):
    return list(range(16 if ctx.quick else 140))


def driver_for(ctx, part):
    s = arrays.seeded(schema_of(ctx, part, max_msgs=4, max_fields=8))
    return Driver(s, kind="asan" if part % 8 == 3 else "plain", ext=arrays.ext_code(s))


def gen_values(src, t, big=False):
    f = t.f
    one = (lambda q: V.gen_msg(q, f.ref, [8])) if t.message is not None else (lambda q: V.gen_scalar(q, f))
    vs = src.list(2.5, 12, one)
    if big and vs:
        n = src.pick(V.BIG)
        vs = V.cycle(src, vs[:3], min(n, 300000 // (1 + max(len(repr(x)) for x in vs[:3]))))
    if t.kind == "string_field":
        vs = [None if src.bool(1, 8) else v for v in vs]
    return vs


def bare(t, vs):
    return [V.drop_transient(t.message, v) for v in vs] if t.message is not None else vs


def write_case(src, s, t, big=False):
    vs = gen_values(src, t, big)
    container, sink = src.draw(3), src.draw(3)
    mode, asc, null = params(src)
    prefix = src.weighted([(3, b""), (1, b"xy"), (1, b"[")])
    bad = False
    if t.kind in ("float", "double") and vs and src.bool(1, 6):
        vs[src.draw(len(vs))] = src.pick([float("nan"), float("inf"), float("-inf")])
        bad = True
    o = Ops(s)
    arrays.ser(o, t, container, sink, vs, mode, asc, null, prefix)

    def check(res):
        r = res[0]
        if bad:
            if r["ok"]:
                return "an array with a number that JSON can not represent is serialised as %s" % short(r["out"])
            return None if r["err"] is None or r["err"]["code"] else "a failed call reports no error"
        if not r["ok"] or not clean(r["err"]):
            return "serialisation fails: %r" % (r["err"],)
        if r["out"][:len(prefix)] != prefix:
            return "earlier content of the sink is lost: %s" % short(r["out"])
        raw = r["out"][len(prefix):]
        try:
            x = c02.parse(raw)
        except ValueError as e:
            return "the text is not JSON (%s): %s" % (e, short(raw))
        if not isinstance(x, list) or len(x) != len(vs):
            return "%d elements are written as %s" % (len(vs), short(raw))
        if raw[:1] != b"[" or raw[-1:] != b"]":
            return "the text is not exactly one array: %s" % short(raw)
        if asc and any(c > 127 for c in raw):
            return "ensure_ascii gives non-ASCII bytes"
        for v, e in zip(vs, x):
            why = c02.cmp_elem(s, t.f, v, e, null)
            if why:
                return why + " in " + short(raw)
        if t.message is not None:
            if not all(k for k, _ in r["own"]):
                return "an element of a serialised array fails on its own"
            for e, (_, b) in zip(x, r["own"]):
                if plain(e) != plain(c02.parse(b)):
                    return "an element is written differently in the array: %s" % short(raw)
        return None
    return Case(o, check, len(vs) >= 2, {"kind": t.kind, "values": short(vs), "container": container, "sink": sink}, ["write", t.kind, "container%d" % container])


def plain(x):
    """Comparable form of a parsed text, member order kept out."""
    if isinstance(x, c02.Obj):
        return ("o", tuple(sorted((k, plain(v)) for k, v in x.pairs)))
    if isinstance(x, list):
        return ("a", tuple(plain(v) for v in x))
    if isinstance(x, c02.Num):
        return ("n", x.text)
    return (type(x).__name__, x if x is not None else 0)


def render(src, s, t, vs):
    items = [V.ws(src) + ("null" if v is None else V.render_elem(src, s, t.f, v, True)) + V.ws(src) for v in vs]
    return V.ws(src) + "[" + (",".join(items) if items else V.ws(src)) + "]" + V.ws(src)


def read_case(src, s, t, big=False):
    vs = bare(t, gen_values(src, t, big))
    text = render(src, s, t, vs)
    kind = "valid"
    k = src.draw(8)
    if k >= 5:
        text = c04.mutate_tokens(src, text)
        kind = "tokens"
    elif k == 4:
        text = src.pick(c04.BAD_ARRAYS) if src.bool() else src.pick(["", " ", "null", "{}", "1", '"x"', "[]x", "[] []", "\n[", "[\n\n", "[]", "[ ]", "[null]"])
        kind = "other"
    elif k == 3:
        items = [V.render_elem(src, s, t.f, e, False) for e in vs[:4] if e is not None]
        items.insert(src.draw(len(items) + 1), c04.bad_value(src, s, t.f))
        text = "[" + (V.ws(src) + "," + V.ws(src)).join(items) + "]"
        kind = "typed"
    raw = text.encode("utf-8", "surrogatepass")
    exp = jsonref.read_array(s, t.f, raw)
    if exp.kind == "ok" and t.kind == "string" and any(v is None for v in exp.value):
        exp = jsonref.Outcome("any")
    container, source = src.draw(3), src.draw(4)
    mode, asc, null = src.weighted([(3, 1), (2, 2), (1, 0)]), src.bool(), src.bool()
    o = Ops(s)
    arrays.des(o, t, container, source, raw, mode, asc, null)
    arrays.des(o, t, container, src.draw(4), b"[]", 1, asc, null)

    def check(res):
        r, r2 = res
        bad = c04.after(r2)
        if bad:
            return bad
        if r2["value"]:
            return "[] gives elements"
        if exp.kind == "any":
            return None
        return c04.compare(exp, r, r["value"], raw)
    return Case(o, check, len(vs) >= 2 or exp.kind == "err" and any(p > (1, 1) for p in exp.pos), {"kind": t.kind, "text": raw, "container": container, "source": source},
                ["read " + kind, t.kind, "source%d" % source, "expected " + exp.kind])


def maker(ctx, part, drv, tag=""):
    s = drv.s
    ts = arrays.types(s)

    def make(src):
        t = src.pick(ts)
        return write_case(src, s, t, tag == "big") if src.bool() else read_case(src, s, t, tag == "big")
    return make


def run_part(ctx, part, st):
    with driver_for(ctx, part) as drv:
        yield from check_cases(ctx, part, drv, maker(ctx, part, drv), 600 if ctx.quick else 3000, st)
        yield from check_cases(ctx, part, drv, maker(ctx, part, drv, "big"), 8 if ctx.quick else 30, st, "big")


def replay(ctx, info):
    return replay_driver(__import__(__name__, fromlist=["x"]), ctx, info)
