"""C04: malformed or mistyped JSON is refused with a located error (differential against vp/jsonref.py)."""
import re
from .common import *
from .. import jsonref

RULE = ("a case is one text, derived from a valid document by a syntactic or a type-level mutation, given to one source; "
        "non-trivial: the reference refuses the text after at least two tokens, or accepts it although it was mutated; "
        "distinct by schema text and request")
ASSUMPTIONS = ["positions are 1-based, columns count bytes; a string token starts at its opening quote and a number at its first character "
               "(any column inside a malformed number is accepted)",
               "unspecified and only required to return: invalid UTF-8, null inside numeric arrays, non-zero base64 padding bits"]

TOKEN = re.compile(r'"(?:[^"\\]|\\.)*"|[-+0-9.eE]+|[A-Za-z]+|[{}\[\]:,]|[ \t\r\n]+|.', re.S)

BAD_NUMBERS = ["01", "-", "+1", ".5", "1.", "1.e5", "1e", "1e+", "--1", "1-", "0x10", "00", "-01", "1e5.5", "1.5.5", "1e5e5", "e5", "-e", "1E-",
               "NaN", "Infinity", "-Infinity", "0b1", "1_000", "1,5", "１", "1 2", "- 1", "1. 5", "0.e1", "-.5"]
BAD_STRINGS = ['"', '"\\', '"\\"', '"\\x41"', '"\\u12"', '"\\u12G4"', '"\\uD800"', '"\\uDC00"', '"\\uD800\\u0041"', '"\\uD800x"', '"\\uD800\\n"',
               '"\\uD800\\uD800"', '"\\uDBFF\\uE000"', '"\n"', '"\t"', '"\x00"', '"\x1f"', "'a'", '"abc', '"\\a"', '"\\U00000041"', '"\\u 041"',
               '"\\u+041"', '"\\u-001"', '"\\', '"\\u', '"\\uD83D\\u', '"a\\', '"\\0"', '"\\v"', '"\r"', '"\\uDFFF\\uD800"', '"\\u00e"', '"a""b"']
BAD_B64 = ["A", "AA", "AAA", "AA=", "A===", "=", "==", "====", "AA==AA==", "AB=C", "AAA=A", "A*==", "AA-_", "AAAA AAAA", "AAAA\\n", "AAA\\u0041A", "=AAA",
           "AAAA=", "AAAAA", "\\u0000\\u0000\\u0000\\u0000", "AAA\\u00c1", "A=A=", "AAAA====", "____", "AA=A", "é==", "AAé"]
JUNK = ["{", "}", "[", "]", ":", ",", '"', "null", "true", "false", "0", "-1", "nul", "truefalse", "NULL", "True", "@", "\x00", "\x0b", "\x0c", "\x7f", "/",
        "//x\n", "/*x*/", "'", "\\", "é", "\xa0", "\ufeff", "undefined", "{}", "[]", '""', "\x1b", "#", ";", "=", "(", "nan", "tru", "n", "_"]
BAD_BYTES = [b"\x80", b"\xff", b"\xc0\x80", b"\xed\xa0\x80", b"\xf5\x80\x80\x80", b"\xe2\x82", b"\xfe", b"\xc3"]


def near_keyword(src):
    """A word that is almost a keyword."""
    w = src.pick(["true", "false", "null"])
    k = src.draw(7)
    i = src.draw(len(w))
    if k == 0:
        return w.upper()
    if k == 1:
        return w[:i] + w[i].upper() + w[i + 1:]
    if k == 2:
        return w[:i] + w[i + 1:] or "n"
    if k == 3:
        return w[:i] + w[i] + w[i:]
    if k == 4:
        return w + src.pick(["x", "_", "1", "True", "null", ".", "-", "é", "e", "s"])
    if k == 5:
        return w[:i] + src.pick("abelnrstufX_0") + w[i + 1:]
    return src.pick(["yes", "no", "on", "off", "nil", "none", "None", "undefined", "NaN", "Infinity", "inf", "T", "F", "t", "f", "n", "N", "void", "nullptr"])


def int_edge(src, f):
    _, signed, bits = S.INT_TYPES[f.type]
    lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
    base = src.pick([hi, lo, hi + 1, lo - 1, 0, 1, -1, 1 << 31, 1 << 32, 1 << 63, 1 << 64, (1 << 64) - 1, -(1 << 31) - 1, -(1 << 63) - 1, 10 ** 19,
                     10 ** 20, 18446744073709551616 * 10, (1 << 53) + 1, hi - 1, lo + 1, 2 * hi, 10 * hi + src.draw(10)])
    k = src.draw(9)
    s = str(base)
    if k == 0:
        return s
    if k == 1:
        return s + ".0" + "0" * src.draw(3)
    if k == 2:
        return s + "." + "0" * src.draw(4) + str(src.int(1, 9))
    if k == 3:
        return s + src.pick(["e0", "E0", "e-0", "e+0", "e1", "e-1", "E+2", "e-2", "e18", "e19", "e20", "e00001"])
    if k == 4:
        # shift the decimal point
        d = s.lstrip("-")
        p = src.int(1, len(d))
        t = d[:p] + ("." + d[p:] if d[p:] else "") + "e" + str(len(d) - p + src.int(-1, 1))
        return ("-" if s.startswith("-") else "") + t
    if k == 5:
        return src.pick(["-0", "-0.0", "0e5", "0.0e-5", "1.5", "0.1", "1e-5", "1e400", "1e-400", "1e99999999999999999999", "1e-99999999999999999999",
                         "0e99999999999999999999", "-0e-99999999999999999999", "1" + "0" * 40, "0." + "0" * 40 + "1", "1" * 400, "1" + "0" * 30 + "e-30",
                         "0." + "0" * 30 + "1e31", "123e-2", "1200e-2", "-1e0", "-0.5"])
    if k == 6:
        return s + "0" * src.int(1, 30) + "e-" + str(src.int(1, 30))
    if k == 7:
        return str(src.int(lo - 3, lo + 3)) if src.bool() else str(src.int(hi - 3, hi + 3))
    return str(V.gen_int(src, src.pick(["int64", "uint64", "int32", "uint32"])))


def float_edge(src, f):
    k = src.draw(5)
    if k == 0:
        return src.pick(["1e308", "1e309", "-1e309", "1.7976931348623157e308", "1.7976931348623159e308", "1.8e308", "1e400", "1e99999999999999999999",
                         "1e-99999999999999999999", "3.4028234663852886e38", "3.5e38", "3.4028236e38", "1e39", "1e38", "-3.5e38", "4.9e-324", "2e-324",
                         "1e-45", "1e-46", "0e999", "-0", "1" * 39, "1" * 38, "1" * 310, "1" * 308, "9" * 309, "0.1", "1e-400", "16777217",
                         "9007199254740993", "1" + "0" * 308, "1" + "0" * 309, "0." + "0" * 400 + "1e401"])
    if k == 1:
        return str(V.gen_int(src, "int64")) + src.pick(["e290", "e-330", "e20", "e-20", "e19", "e30", ".5"])
    if k == 2:
        return "%s.%se%d" % (src.int(0, 9), src.draw(10 ** 9), src.int(-330, 310))
    return V.render_float(src, V.gen_float(src, "double"), "double")


def bad_value(src, s, f):
    """Text of a value that does not (or only just) suit the field or array element."""
    k = f.kind
    pick = src.draw(6)
    if pick == 0:
        return src.pick(["null", "true", "false", "0", "1", "-1.5", '""', '"x"', '"0"', '"true"', "[]", "{}", "[[]]", "[{}]", '{"a":1}', "[1]", '["x"]', '"AAAA"',
                         "[null]", "[0]", '[""]', "1e3", '"null"'])
    if pick == 1:
        return near_keyword(src) if src.bool(1, 3) else src.pick(JUNK)
    if pick == 2 and k in ("string", "bytes"):
        return src.pick(BAD_STRINGS)
    if k == "int":
        return int_edge(src, f) if src.bool(3, 4) else src.pick(BAD_NUMBERS)
    if k in ("double", "float"):
        return float_edge(src, f) if src.bool(2, 3) else src.pick(BAD_NUMBERS)
    if k == "bytes":
        if src.bool(1, 3):
            t = V.base64.b64encode(V.gen_bytes(src)).decode()
            i = src.draw(len(t) + 1)
            return '"' + t[:i] + src.pick(["", "=", "*", "A", " ", "-", "_", "\\n", "\\u0041", "\\/"]) + t[i + src.draw(2):] + '"'
        return '"' + src.pick(BAD_B64) + '"'
    if k == "string":
        return src.pick(BAD_STRINGS)
    if k == "bool":
        if src.bool():
            return near_keyword(src)
        return src.pick(["0", "1", '"true"', "True", "FALSE", "t", "truee", "tru", "nulll", "true1", "true false", "true[]"])
    return src.pick(["[]", "[{}]", '"{}"', "1", "{,}", "{:}", '{"a"}', '{"a":}', '{"a":1,}', '{"a" 1}', "{1:2}", "{null:1}", "{a:1}", '{"a":1 "b":2}', '{"a":1;"b":2}',
                     '{"a"::1}', "{", "{]", '{"a":1]', '{"":', '{true:1}', '{"a",1}', '{{}}', '{"a":[}', '{"a":{]}', '{"a":[1,]}', '{"a":[,1]}', '{"a":[1 1]}',
                     '{"a":{,}}', '{"a":{"b"}}', '{"a":{"b":1,}}', '{"a":{1:1}}', '{"a":{"b" 1}}', '{"a":tru}', '{"a":01}', '{"a":"\\x"}', '{"a":[[[[]]]}'])


BAD_ARRAYS = ["[", "[1", "[1,", "[,]", "[1,]", "[,1]", "[1,,1]", "[1 1]", "[1;1]", "]", "[}", "[1}", "[1:1]", "[[]", "{}", "[]]", "[1]]", "1,1", "[null,]", "(1)",
              '["a",]', '["a" "b"]', '["a",,]', "[{},]", "[{}{}]", "[{},,{}]", "[true,]", "[tru]", "[[1]]", '[{"a"}]', "[{]"]


def typed_mutation(src, s, m, v):
    """A document for v in which one member got another value; descends into nested messages sometimes."""
    members = []
    cand = [i for i, f in enumerate(m.fields) if not f.transient]
    k = src.pick(cand) if cand else -1
    order = src.shuffle(list(range(len(m.fields)))) if src.bool() else list(range(len(m.fields)))
    for i in order:
        f, x = m.fields[i], v[i]
        if f.transient:
            continue
        name = V.render_text(V.Zero, s.jname(f))
        if i == k:
            if f.kind == "message" and src.bool(1, 2):
                inner = typed_mutation(src, s, f.ref, x[0] if f.repeated and x else V.empty_msg(f.ref) if f.repeated else x)
                t = "[" + V.ws(src) + inner + V.ws(src) + "]" if f.repeated else inner
            elif f.repeated:
                if src.bool(1, 3):
                    t = src.pick(BAD_ARRAYS)
                else:
                    items = [V.render_elem(src, s, f, e, False) for e in x[:4]]
                    items.insert(src.draw(len(items) + 1), bad_value(src, s, f))
                    t = "[" + (V.ws(src) + "," + V.ws(src)).join(items) + V.ws(src) + "]"
            else:
                t = bad_value(src, s, f)
        elif V.is_absent(f, x):
            continue
        elif f.repeated:
            t = "[" + ",".join(V.render_elem(src, s, f, e, False) for e in x) + "]"
        else:
            t = V.render_elem(src, s, f, x, False)
        members.append(V.ws(src) + name + V.ws(src) + ":" + V.ws(src) + t + V.ws(src))
    if not cand or src.bool(1, 8):
        # an ignored member with a malformed value
        bad = src.pick([src.pick(BAD_ARRAYS), src.pick(BAD_STRINGS), src.pick(BAD_NUMBERS), src.pick(JUNK),
                        '{"a":' + src.pick(JUNK) + "}", "[" + src.pick(JUNK) + "]", '{"a":1,' + src.pick(JUNK) + "}", '{' + src.pick(JUNK) + ':1}',
                        '[{"a":[' + src.pick(JUNK) + "]}]"])
        members.insert(src.draw(len(members) + 1), V.render_text(V.Zero, V.unknown_name(src, s, m)) + ":" + bad)
    return "{" + ",".join(members) + "}"


def mutate_tokens(src, text):
    toks = TOKEN.findall(text)
    for _ in range(src.weighted([(6, 1), (2, 2), (1, 4)])):
        if not toks:
            break
        i = src.draw(len(toks))
        k = src.draw(8)
        if k == 0:
            del toks[i]
        elif k == 1:
            toks.insert(i, toks[i])
        elif k == 2:
            toks.insert(i, src.pick(JUNK))
        elif k == 3:
            toks[i] = near_keyword(src) if src.bool(1, 6) else src.pick(JUNK)
        elif k == 4:
            j = src.draw(len(toks))
            toks[i], toks[j] = toks[j], toks[i]
        elif k == 5:
            toks = toks[:i]
        elif k == 6:
            toks[i] = src.pick(BAD_STRINGS if src.bool() else BAD_NUMBERS)
        else:
            # break the token itself
            t = toks[i]
            p = src.draw(len(t) + 1)
            toks[i] = t[:p] + src.pick(["", " ", "\n", '"', "\\", "x", "\x00", "é", ",", "0"]) + t[p + src.draw(2):]
    return "".join(toks)


def mutate_bytes(src, b):
    b = bytearray(b)
    for _ in range(src.int(1, 3)):
        i = src.draw(len(b) + 1)
        k = src.draw(5)
        if k == 0:
            b[i:i + 1] = b""
        elif k == 1:
            b[i:i] = bytes([src.draw(256)])
        elif k == 2:
            b[i:i + 1] = bytes([src.draw(256)])
        elif k == 3:
            b[i:i + 1] = src.pick(BAD_BYTES)
        else:
            del b[i:]
    return bytes(b)


def gen_text(src, s, m):
    v = V.drop_transient(m, V.gen_msg(src, m, [src.pick([6, 12, 40])]))
    k = src.draw(12)
    if k < 5:
        t = typed_mutation(src, s, m, v)
        kind = "typed"
        if src.bool(1, 6):
            t = mutate_tokens(src, t)
    elif k < 9:
        t = mutate_tokens(src, V.render_msg(src, s, m, v))
        kind = "tokens"
    elif k == 9:
        return mutate_bytes(src, V.render_msg(src, s, m, v).encode("utf-8", "surrogatepass")), "bytes"
    elif k == 10:
        t = V.render_msg(src, s, m, v)
        b = t.encode("utf-8")
        return b[:src.draw(len(b) + 1)], "prefix"
    else:
        t = src.pick(["", " ", "\n\n", "null", "[]", "1", '"x"', "true", "{", "}", "{}", "{}x", "{} {}", "[{}]", " null ", "{}\n", "\ufeff{}", "{}\x00", "nul", '"',
                      "{}}", "{},", "{\n", "{\n\n  ", "\r\n{", "\r{", "\t{\t"]) if src.bool() else V.gen_json(src)
        kind = "other"
    return t.encode("utf-8", "surrogatepass"), kind


def partitions(ctx):
    return list(range(24 if ctx.quick else 240))


def driver_for(ctx, part):
    return Driver(schema_of(ctx, part, wide=part % 12 == 11))


def maker(ctx, part, drv, tag=""):
    s = drv.s

    def make(src):
        m = src.pick(s.messages)
        text, kind = gen_text(src, s, m)
        if src.bool(1, 40):
            # edges of line and column numbers
            text = src.pick([b"\n", b" ", b"\r\n", b"\t", b"\r"]) * (src.pick([127, 128, 255, 256, 1023, 4095, 32767, 32768, 65534, 65535, 65536]) - src.draw(3)) + text
            kind += ", far away"
        source = src.draw(5)
        mode = src.weighted([(3, 1), (2, 2), (1, 0)])
        asc, null = src.bool(), src.bool()
        exp = jsonref.read(s, m, text)
        o = Ops(s)
        o.new(m, 0)
        o.des(m, 0, text, source, mode, asc, null)
        o.dump(m, 0)
        # the same parameters afterwards
        o.des(m, 1, b"{}", src.draw(5), 1, asc, null)

        def check(res):
            r, got, r2 = res
            if not r["restored"]:
                return "the stream's flags are not restored"
            bad = after(r2)
            if bad:
                return bad
            if exp.kind == "any":
                return None if not r["ok"] or r["err"] is None or clean(r["err"]) else "accepted with an error: %r" % (r["err"],)
            return compare(exp, r, got, text)

        return Case(o, check, exp.kind == "err" and any(p > (1, 1) for p in exp.pos) or exp.kind == "ok",
                    {"message": m.name, "text": text, "source": source, "mode": mode, "expected": exp.kind, "position": sorted(exp.pos)[0] if exp.pos else None},
                    [kind, "expected " + exp.kind])
    return make


def after(r2):
    if not r2["ok"] or not clean(r2["err"]):
        return "a valid document is refused, or leaves error information, after another call with the same parameters: %r" % (r2,)


def compare(exp, r, got, text):
    if exp.kind == "ok":
        if not r["ok"]:
            return "a well-formed document is refused: %s %r" % (short(text), r["err"])
        if r["err"] is not None and not clean(r["err"]):
            return "a successful call leaves error information: %r" % (r["err"],)
        if not exp.free and not jsonref.matches(exp.value, got):
            return "%s is read as %s instead of %s" % (short(text), short(got), short(exp.value))
        return None
    if r["ok"]:
        return "an invalid document is accepted: %s (first error at %s) giving %s" % (short(text), sorted(exp.pos)[0], short(got))
    e = r["err"]
    if e is None:
        return None
    if e["code"] == 0 or not e["msg"] or e["msg"] == b"stale":
        return "a failed call gives no error code or message: %r for %s" % (e, short(text))
    if (e["line"], e["col"]) not in exp.pos:
        return "the error in %s is located at %s instead of %s (%s)" % (short(text), (e["line"], e["col"]), sorted(exp.pos)[0], e["msg"])
    return None


def run_part(ctx, part, st):
    with driver_for(ctx, part) as drv:
        yield from check_cases(ctx, part, drv, maker(ctx, part, drv), 600 if ctx.quick else 3000, st)


def replay(ctx, info):
    return replay_driver(__import__(__name__, fromlist=["x"]), ctx, info)
