"""C02: the serialised text is valid JSON that denotes exactly the object (read by an independent JSON parser)."""
import base64
import json
from .common import *
from .. import jsonref

RULE = ("a case is one object of a generated message type, serialised under one parameter setting and parsed by an independent RFC 8259 parser; "
        "non-trivial: at least two present non-transient leaves; distinct by schema text and request")
ASSUMPTIONS = ["Python's json parser (strict mode, NaN and infinities refused) is the reference for JSON syntax"]


def partitions(ctx):
    return list(range(24 if ctx.quick else 220))


class Num:
    """A number as written."""

    def __init__(self, text):
        self.text = text


class Obj:
    def __init__(self, pairs):
        self.pairs = pairs


def refuse(x):
    raise ValueError("not JSON: " + x)


def parse(raw):
    text = raw.decode("utf-8")
    return json.loads(text, object_pairs_hook=Obj, parse_int=Num, parse_float=Num, parse_constant=refuse)


def cmp_elem(s, f, v, x, null):
    k = f.kind
    if k == "message":
        return cmp_msg(s, f.ref, v, x, null)
    if k == "string":
        if v is None:
            return None if x is None else "an absent element is written as %s" % short(x)
        return None if isinstance(x, str) and x == v.decode("utf-8") else "string %s is written as %s" % (short(v), short(x))
    if k == "bytes":
        return None if isinstance(x, str) and x == base64.b64encode(v).decode() else "bytes %s are written as %s" % (short(v), short(x))
    if k == "bool":
        return None if x is v else "boolean %s is written as %s" % (v, short(x))
    if not isinstance(x, Num):
        return "number %r is written as %s" % (v, short(x))
    t = x.text.encode()
    if k == "int":
        return None if jsonref.to_int(t, f.type) == v else "integer %d is written as %s" % (v, x.text)
    try:
        w = jsonref.to_float(t, f.type)
    except jsonref.Open:
        w = V.f32(float(x.text)) if f.type == "float" else float(x.text)
    return None if w is not None and jsonref.matches(w, v) else "%s %r is written as %s" % (f.type, v, x.text)


def cmp_msg(s, m, v, x, null):
    if not isinstance(x, Obj):
        return "a message is written as %s" % short(x)
    names = [n for n, _ in x.pairs]
    if len(set(names)) != len(names):
        return "member names repeat: %s" % short(names)
    members = dict(x.pairs)
    for f, val in zip(m.fields, v):
        if f.transient:
            continue
        n = s.jname(f)
        if V.is_absent(f, val):
            if n not in members:
                if null:
                    return "serialize_null does not write the absent field %s" % f.name
                continue
            if not null:
                return "the absent field %s is written" % f.name
            got = members.pop(n)
            if got is None or (f.repeated and got == []) or (f.kind == "bytes" and not f.repeated and got == ""):
                continue
            if f.kind == "message" and not f.repeated:
                if isinstance(got, Obj) and not got.pairs:
                    continue
                why = cmp_msg(s, f.ref, V.empty_msg(f.ref), got, null)
                if why:
                    return why
                continue
            return "the absent field %s is written as %s" % (f.name, short(got))
        if n not in members:
            return "the field %s (%s) is not written" % (f.name, n)
        got = members.pop(n)
        if f.repeated:
            if not isinstance(got, list) or len(got) != len(val):
                return "%d elements of %s are written as %s" % (len(val), f.name, short(got))
            for e, g in zip(val, got):
                why = cmp_elem(s, f, e, g, null)
                if why:
                    return why
        else:
            why = cmp_elem(s, f, val, got, null)
            if why:
                return why
    if members:
        return "unexpected members: %s" % short(sorted(members))
    return None


def judge(s, m, v, raw, asc, null):
    try:
        x = parse(raw)
    except UnicodeDecodeError as e:
        return "the text is not UTF-8 (%s): %s" % (e.reason, short(raw))
    except ValueError as e:
        return "the text is not JSON (%s): %s" % (e, short(raw))
    if raw[:1] != b"{" or raw[-1:] != b"}":
        return "the text is not exactly one object: %s" % short(raw)
    if asc and any(c > 127 for c in raw):
        return "ensure_ascii gives non-ASCII bytes: %s" % short(raw)
    why = cmp_msg(s, m, v, x, null)
    return None if why is None else "%s (%s)" % (why, short(raw))


def driver_for(ctx, part):
    return Driver(schema_of(ctx, part, wide=part % 8 == 7))


def maker(ctx, part, drv, tag=""):
    s = drv.s

    def make(src):
        m = src.pick(s.messages)
        v = V.gen_big_msg(src, m) if tag == "big" else with_null_elements(src, m, V.gen_msg(src, m, present=src.pick([(2, 3), (1, 3), (9, 10)])))
        mode, asc, null = params(src)
        style = src.draw(132)
        o = Ops(s)
        o.set(m, 0, v, style)
        o.ser(m, 0, src.draw(3), mode, asc, null)

        def check(res):
            r = res[0]
            if not r["ok"]:
                # whether it may fail is another property
                return None
            return judge(s, m, v, r["out"], asc, null)
        return Case(o, check, weight(m, v) >= 2, {"message": m.name, "value": short(v), "params": [mode, asc, null], "style": style},
                    ["ascii" if asc else "raw", "nulls" if null else "no nulls"])
    return make


def run_part(ctx, part, st):
    with driver_for(ctx, part) as drv:
        yield from check_cases(ctx, part, drv, maker(ctx, part, drv), 400 if ctx.quick else 2000, st)
        yield from check_cases(ctx, part, drv, maker(ctx, part, drv, "big"), 6 if ctx.quick else 25, st, "big")


def replay(ctx, info):
    return replay_driver(__import__(__name__, fromlist=["x"]), ctx, info)
