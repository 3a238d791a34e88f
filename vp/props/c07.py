"""C07: message objects behave as plain values under any operation history (model-based)."""
import math
import struct

from .common import *
from .. import jsonref

RULE = ("a case is a history of 3 to 30 operations on four objects of one generated type, mirrored by a model of optional values; every observation is compared; "
        "non-trivial: at least three state-changing operations and one comparison or dump of a non-empty object; distinct by schema text and request")
ASSUMPTIONS = ["moved-from objects and objects after a failed deserialisation are only required to be assignable and clearable",
               "null for a populated field and deserialising into a populated repeated field are left open", "NaN is left out"]


def partitions(ctx):
    return list(range(24 if ctx.quick else 200))


def driver_for(ctx, part):
    return Driver(schema_of(ctx, part, wide=part % 12 == 11), kind="asan" if part % 8 == 5 else "plain")


def small(src, f):
    """A value from a tiny pool, so that equal values are common."""
    k = f.kind
    if k == "int":
        return src.draw(3)
    if k == "bool":
        return src.bool()
    if k in ("double", "float"):
        return src.pick([0.0, 1.0, -0.0, 0.5])
    if k == "string":
        return src.pick([b"", b"a", b"null", b"\x00"])
    if k == "bytes":
        return src.pick([b"", b"\x00", b"a"])
    return gen_small(src, f.ref)


def gen_small(src, m):
    out = []
    for f in m.fields:
        out.append(small_field(src, f))
    return out


def small_field(src, f):
    if not src.bool(1, 2):
        return V.empty_value(f)
    if f.repeated:
        return [small(src, f) for _ in range(src.draw(3))]
    return small(src, f)


def near_bytes(src, x):
    k = src.draw(5)
    i = src.draw(len(x) + 1)
    if k == 0 or not x:
        return x + src.pick([b"\0", b"a", b" ", b"null"])
    if k == 1:
        return x[:-1]
    if k == 2:
        return x[:i] + src.pick([b"\0", b"a", b"\xff"]) + x[i:]
    if k == 3:
        i = min(i, len(x) - 1)
        return x[:i] + bytes([x[i] ^ (1 << src.draw(8))]) + x[i + 1:]
    return x[::-1]


def near(src, f, x):
    """A value of the (non-repeated) field that differs as little as possible from x."""
    k = f.kind
    if k == "message":
        return near_msg(src, f.ref, x)
    if x is None or (k != "bytes" and src.bool(1, 8)):
        return {"int": 0, "bool": False, "double": 0.0, "float": 0.0, "string": b""}[k] if x is None else None
    if k == "bool":
        return not x
    if k == "int":
        _, signed, bits = S.INT_TYPES[f.type]
        y = x + src.pick([1, -1]) if src.bool() else x ^ (1 << src.draw(bits - 1))
        lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if signed else (0, (1 << bits) - 1)
        return y if lo <= y <= hi else x
    if k == "double" or k == "float":
        form = "<q" if k == "double" else "<i"
        b = struct.unpack(form, struct.pack("<" + k[0], x))[0]
        t = src.draw(4)
        b = b + 1 if t == 0 else b - 1 if t == 1 else b ^ (1 << src.draw(8)) if t == 2 else b ^ (1 << src.draw(8 * struct.calcsize(form) - 1))
        try:
            y = struct.unpack("<" + k[0], struct.pack(form, b))[0]
        except struct.error:
            return x
        return y if math.isfinite(y) else x
    return near_bytes(src, x)


def near_field(src, f, x):
    if not f.repeated:
        return near(src, f, x)
    x = V.copy_value(x)
    k = src.draw(6)
    if k == 0 or not x:
        x.append(V.copy_value(src.pick(x)) if x and src.bool() else small(src, f))
    elif k == 1:
        x.pop()
    elif k == 2:
        i, j = src.draw(len(x)), src.draw(len(x))
        x[i], x[j] = x[j], x[i]
    elif k == 3:
        x.pop(0)
    else:
        i = src.draw(len(x))
        x[i] = near(src, f, x[i])
        if x[i] is None:
            x[i] = small(src, f)
    return x


def near_msg(src, m, v):
    v = V.copy_value(v)
    if m.fields:
        i = src.draw(len(m.fields))
        v[i] = near_field(src, m.fields[i], v[i])
    return v


def gen_field(src, f):
    if src.bool(2, 3):
        return small_field(src, f)
    if f.repeated:
        return src.list(2, 6, lambda q: V.gen_msg(q, f.ref, [8]) if f.kind == "message" else V.gen_scalar(q, f))
    if f.kind == "message":
        return V.gen_msg(src, f.ref, [12])
    return V.gen_scalar(src, f)


def partial(m, v, old):
    """The part of v that may be deserialised over old with a determined result."""
    out = []
    for f, x, o in zip(m.fields, v, old):
        if f.transient or (f.repeated and o):
            out.append(V.empty_value(f))
        elif f.kind == "message" and not f.repeated:
            out.append(partial(f.ref, x, o))
        elif f.kind == "message":
            out.append([V.drop_transient(f.ref, e) for e in x])
        else:
            out.append(x)
    return out


def maker(ctx, part, drv, tag=""):
    s = drv.s

    def make(src):
        m = src.pick([x for x in s.messages if x.fields] or s.messages)
        o = Ops(s)
        model = [V.empty_msg(m) for _ in range(4)]
        expect = []      # functions of the decoded results
        log = []
        changes = [0]
        looks = [0]

        def dump(a):
            if model[a] is None:
                return
            want = V.copy_value(model[a])
            if not V.is_empty(m, want):
                looks[0] += 1
            o.dump(m, a)
            expect.append(lambda got: None if V.same(want, got) else "object %d holds %s instead of %s" % (a, short(got), short(want)))

        def compare(a, b):
            if model[a] is None or model[b] is None:
                return
            want = V.same(model[a], model[b])
            looks[0] += not V.is_empty(m, model[a])
            o.eq(m, a, b)
            va, vb = short(model[a]), short(model[b])
            expect.append(lambda got: None if got == (want, not want, want) else
                          "==, !=, equal give %s for %s and %s" % (got, va, vb))

        def is_empty(a):
            if model[a] is None:
                return
            want = V.is_empty(m, model[a])
            va = short(model[a])
            o.empty(m, a)
            expect.append(lambda got: None if got == want else "empty() gives %s for %s" % (got, va))

        n = src.size(9, 26) + 3
        nf = len(m.fields)
        for _ in range(n):
            a, b = src.draw(4), src.draw(4)
            k = src.draw(25)
            if model[a] is None and k not in (0, 1, 12, 13, 14, 22, 23, 24):
                k = src.pick([0, 1, 12, 13])
            if k == 0:
                v = gen_small(src, m) if src.bool() else V.gen_msg(src, m, [20])
                style = src.draw(132)
                o.set(m, a, v, style)
                model[a] = V.copy_value(v)
                log.append(["set", a, style])
                changes[0] += 1
            elif k == 1:
                o.clear(m, a)
                model[a] = V.empty_msg(m)
                log.append(["clear", a])
                changes[0] += 1
            elif k in (2, 3, 4, 5) and nf:
                i = src.draw(nf)
                v = gen_field(src, m.fields[i])
                style = src.draw(132)
                o.setf(m, a, i, v, style)
                model[a][i] = V.copy_value(v)
                log.append(["field", a, m.fields[i].name, short(v, 60), style])
                changes[0] += 1
            elif k == 6 and nf:
                i = src.draw(nf)
                o.clearf(m, a, i)
                model[a][i] = V.empty_value(m.fields[i])
                log.append(["clear field", a, m.fields[i].name])
                changes[0] += 1
            elif k in (7, 8) and nf and model[b] is not None:
                i, how = src.draw(nf), src.draw(3)
                o.copyf(m, a, b, i, how)
                if how == 2:
                    model[a][i], model[b][i] = model[b][i], model[a][i]
                else:
                    model[a][i] = V.copy_value(model[b][i])
                log.append([["assign", "copy", "swap"][how] + " field", a, b, m.fields[i].name])
                changes[0] += 1
            elif k in (9, 10):
                if model[b] is not None:
                    compare(a, b)
                else:
                    dump(a)
            elif k == 11:
                is_empty(a)
                if nf:
                    i = src.draw(nf)
                    want = V.is_absent(m.fields[i], model[a][i])
                    o.emptyf(m, a, i)
                    expect.append(lambda got, want=want, i=i: None if got == want else "%s.empty() gives %s" % (m.fields[i].name, got))
            elif k in (12, 13):
                if model[b] is None:
                    o.new(m, a)
                    model[a] = V.empty_msg(m)
                    log.append(["new", a])
                    continue
                op = "C" if k == 12 else "K"
                o.two(op, m, a, b)
                model[a] = V.copy_value(model[b])
                log.append(["copy-assign" if k == 12 else "copy-construct", a, b])
                changes[0] += 1
            elif k == 14:
                o.new(m, a)
                model[a] = V.empty_msg(m)
                log.append(["new", a])
            elif k in (15, 16):
                if a == b or model[b] is None:
                    continue
                o.two("A" if k == 15 else "M", m, a, b)
                model[a], model[b] = model[b], None
                log.append(["move-assign" if k == 15 else "move-construct", a, b])
                changes[0] += 1
            elif k == 17:
                if model[b] is None:
                    continue
                o.two("W", m, a, b)
                model[a], model[b] = model[b], model[a]
                log.append(["swap", a, b])
                changes[0] += 1
            elif k in (18, 19):
                if k == 18 or not src.bool(1, 3):
                    w = near_msg(src, m, model[a]) if src.bool(1, 3) else gen_small(src, m) if src.bool() else V.gen_msg(src, m, [20])
                    v = partial(m, w, model[a])
                    try:
                        text = V.render_msg(src, s, m, v, False).encode("utf-8")
                    except UnicodeDecodeError:
                        continue
                    exp = jsonref.read(s, m, text, model[a])
                    if exp.kind != "ok" or exp.free or any_of(exp.value):
                        continue
                    o.des(m, a, text, src.draw(5), 1)
                    model[a] = exp.value
                    log.append(["deserialise", a, text.decode()])
                    expect.append(lambda r: None if r["ok"] else "a valid document is refused: %r" % (r["err"],))
                    changes[0] += 1
                else:
                    text = src.pick([b"", b"{", b'{"a":', b"[]", b"null", b'{"a"'])
                    o.des(m, a, text, src.draw(5), 1)
                    expect.append(lambda r: None if not r["ok"] else "an invalid document is accepted")
                    model[a] = None
                    log.append(["deserialise", a, text.decode()])
            elif k == 20 and nf and model[b] is not None:
                i = src.draw(nf)
                want = V.same(model[a][i], model[b][i])
                o.eqf(m, a, b, i)
                expect.append(lambda got, want=want, i=i: None if got == (want, not want) else "== and != of field %s give %s" % (m.fields[i].name, got))
            elif k == 21 and nf:
                i = src.draw(nf)
                f = m.fields[i]
                if f.repeated or f.kind in ("bytes", "message"):
                    dump(a)
                    continue
                cur = model[a][i]
                v = cur if cur is not None and src.bool() else near(src, f, cur) if cur is not None and src.bool() else small(src, f)
                if v is None:
                    v = small(src, f)
                o.cmpv(m, a, i, v)
                want = V.same(cur, v)

                def chk(got, want=want, cur=cur, v=v, f=f):
                    for j in range(0, len(got), 2):
                        if got[j] != want or (cur is not None and got[j + 1] == want):
                            return "== and != of field %s (%r) with %r give %s" % (f.name, cur, v, got)
                    return None
                expect.append(chk)
            elif k >= 22 and nf and model[b] is not None and a != b:
                # an object that is almost the same as another
                if k == 24 or model[a] is None:
                    o.two(src.pick("CK"), m, a, b)
                    model[a] = V.copy_value(model[b])
                i = src.draw(nf)
                v = near_field(src, m.fields[i], model[b][i])
                style = src.draw(132)
                o.setf(m, a, i, v, style)
                model[a][i] = V.copy_value(v)
                log.append(["almost", a, b, m.fields[i].name, short(v, 60), style])
                changes[0] += 1
                o.eqf(m, a, b, i)
                want = V.same(model[a][i], model[b][i])
                expect.append(lambda got, want=want, i=i, x=short(model[b][i]), y=short(v): None if got == (want, not want) else
                              "== and != of field %s (%s and %s) give %s" % (m.fields[i].name, y, x, got))
                compare(a, b)
            if src.bool(1, 6):
                dump(src.draw(4))
        for a in range(4):
            dump(a)
            is_empty(a)
        for a in range(4):
            compare(a, src.draw(4))

        def check(res):
            if len(res) != len(expect):
                return "unexpected number of results"
            for fn, r in zip(expect, res):
                why = fn(r)
                if why:
                    return why + " after " + short(log, 1500)
            return None
        return Case(o, check, changes[0] >= 3 and looks[0] > 0, {"message": m.name, "history": log}, ["%s operations" % ("<10" if n < 10 else ">=10")])
    return make


def any_of(v):
    return isinstance(v, jsonref.OneOf) or isinstance(v, list) and any(any_of(e) for e in v)


def run_part(ctx, part, st):
    with driver_for(ctx, part) as drv:
        yield from check_cases(ctx, part, drv, maker(ctx, part, drv), 400 if ctx.quick else 2000, st)


def replay(ctx, info):
    return replay_driver(__import__(__name__, fromlist=["x"]), ctx, info)
