"""C11: invalid schemas are refused with a diagnostic at the error, valid ones are accepted."""
import os
import subprocess
from .common import *
from .. import build, protoref
from . import c10

RULE = ("a case is one damaged schema (token or character edits, truncation, planted violation of one rule, or an edit at the edge of a rule) judged by the reference "
        "recogniser; the compiler must refuse exactly what the recogniser refuses, with file:line:column: error: at the problem; "
        "non-trivial: the recogniser has a definite verdict and the text differs from the valid schema; distinct by text")
ASSUMPTIONS = ["what proto3 and the README leave open (vp/protoref.py, soft problems) may be accepted or refused",
               "columns count bytes or characters from 1; an error at the end of the file may be reported anywhere after the last token; "
               "a violated rule may be reported anywhere in the lines of the statements that violate it"]

JUNK = ["message", "repeated", "optional", "int32", "string", "bytes", "syntax", "package", "option", "true", "false", "enum", "map", "{", "}", "[", "]", "=", ";", ",", "<", ">", "1", "0", "19000",
        "536870912", "x", "Foo", "a.b", "import", "oneof", "reserved", "required", '"proto3"', '"', "/*", "//", "*/", "/", "'x'", "-", "-1", "1.5", "0x10", "010", "1a", "a.", ".a", "a..b", "(", ")", ":",
        "@", "#", "$", "\\", "\udcff", "é", "\0", "\x0b", "\x0c", "nested message", "extend", "service", "rpc", "double", "class", "std", "|", "&", "?", "!", "~", "`", "%", "^", "*", "+", "}}", ";;", "]]", "=="]
BAD_NUMBERS = ["0", "00", "536870912", "19000", "19999", "19500", "2147483647", "2147483648", "4294967296", "4294967297", "18446744073709551615", "18446744073709551617", "99999999999999999999999",
               "536870911", "18999", "20000", "1", "268435456", "9223372036854775808", "8589934593", "0x7", "1e3"]
KEYWORD_SAMPLES = sorted(S.CPP_KEYWORDS - S.PROTO_KEYWORDS)


def small_schema(src):
    return S.gen_schema(src, max_msgs=src.pick([3, 5, 2]), max_fields=src.pick([5, 3, 10]), wide=src.bool(1, 30), deep=src.bool(1, 40))


def with_fields(src, s):
    ms = [m for m in s.messages if m.fields]
    if not ms:
        m = src.pick(s.messages)
        m.fields.append(S.Field("", "int32", "f_0", 1))
        ms = [m]
    return src.pick(ms)


def plant(src, s):
    """Changes the model (or returns replaced tokens) so that one rule is violated or touched."""
    k = src.draw(19)
    if k == 18:
        return "syntax"
    m = with_fields(src, s)
    f = src.pick(m.fields)
    if k == 0:
        f.number = src.pick(BAD_NUMBERS)
        return "field number"
    if k == 1:
        f.number = src.int(0, 1 << 30) if src.bool() else src.int(18990, 20010)
        return "field number"
    if k == 2:
        g = S.Field("", "int32", "dup_number", f.number)
        m.fields.insert(src.draw(len(m.fields) + 1), g)
        return "repeated number"
    if k == 3:
        n = max([x.number for x in m.fields if isinstance(x.number, int)] or [0])
        g = S.Field("", src.pick(["int32", "string"]), f.name, n + 1 if n < 536870911 else 7)
        m.fields.insert(src.draw(len(m.fields) + 1), g)
        return "repeated name"
    if k == 4:
        o = S.Message(m.name)
        o.fields = [S.Field("", "int32", "a", 1)] if src.bool() else []
        s.messages.insert(src.draw(len(s.messages) + 1), o)
        return "repeated message"
    if k == 5:
        f.type = "message"
        f.ref = S.Message(src.pick(["Unknown", m.name + "x", m.name.lower() + "_", m.name[:-1] or "Q", "a.Unknown", "Foo.Bar", s.package + "x." + m.name, m.name + "." + m.name]))
        f.qualify = src.bool(1, 3)
        return "unknown type"
    if k in (6, 7):
        # a cycle through n messages
        n = src.pick([1, 2, 3, 1, 2, len(s.messages)])
        ring = src.shuffle(s.messages)[:n]
        for i, x in enumerate(ring):
            g = S.Field(src.pick(["", "repeated"]), "message", "ring_%d" % i, 500 + i, ring[(i + 1) % len(ring)])
            g.transient = src.pick([None, None, True])
            x.fields.insert(src.draw(len(x.fields) + 1), g)
        if src.bool(1, 4):
            # a cut ring is fine
            x = ring[-1]
            x.fields = [g for g in x.fields if not g.name.startswith("ring_")]
        return "cycle"
    if k == 8:
        n = src.pick([64, 65, 66, 63, 70, 128, 130])
        m.fields = m.fields[:n]
        i = 0
        names = set(x.name for x in m.fields) | set(x.json_name for x in m.fields)
        nums = set(x.number for x in m.fields)
        while len(m.fields) < n:
            i += 1
            if "w%d" % i not in names and 30000 + i not in nums:
                m.fields.insert(src.draw(len(m.fields) + 1), S.Field("", "int32", "w%d" % i, 30000 + i))
        return "field count"
    if k == 9:
        s.options.append((src.pick(["obfuscate_strings", "number_names", "cpp_use_lists"]), src.pick(["1", '"true"', "yes", "a.b", "0", "True", "TRUE", '""', "truefalse", "true"])))
        return "kind of option"
    if k == 10:
        n, v = src.pick([("transient", "1"), ("transient", '"true"'), ("transient", "yes"), ("name", "1"), ("name", "abc"), ("name", "true"), ("name", "a.b"), ("transient", "True"), ("transient", "false")])
        f.options.insert(0, (n, v))
        if n == "name":
            f.json_name = None
        else:
            f.transient = None
        return "kind of field option"
    if k == 11:
        f.name = src.pick(KEYWORD_SAMPLES)
        return "field name"
    if k == 12:
        m.name = src.pick(KEYWORD_SAMPLES)
        return "message name"
    if k == 13:
        parts = s.package.split(".") if s.package else []
        parts.insert(src.draw(len(parts) + 1), src.pick(KEYWORD_SAMPLES))
        s.package = ".".join(parts)
        return "package name"
    if k == 14:
        g = src.pick(m.fields)
        f.json_name = g.name if g.json_name is None else g.json_name
        return "repeated JSON name"
    if k == 15:
        f.json_name = src.pick(["a'b", "'", "x'y'z", "\udcff", "\udcc0\udc80", "é\udce9", "\udced\udca0\udc80", "\udcf4\udc90\udc80\udc80", "ok\udce2\udc82", "'\n"[:1]])
        return "JSON name"
    if k == 16:
        m.name = src.pick(sorted(protoref.MEMBERS)).decode()
        return "message name"
    o = src.pick(s.messages)
    if o is not m:
        o.name = m.name + "_type"
    return "model name"


def edit_word(src, t):
    """Changes one token a little, inside the quotes of a string."""
    q = t[:1] if t[:1] in ("\"", "'") else ""
    w = t[1:-1] if q and len(t) > 1 and t[-1:] == q else t.strip(q)
    k = src.draw(7)
    i = src.draw(len(w) + 1)
    c = src.pick(["0", "1", "3", ".", " ", "a", "z", "_", "s", "x", "\t", "-"])
    if k == 0:
        w = w + c
    elif k == 1:
        w = c + w
    elif k == 2:
        w = w[:i] + c + w[i:]
    elif k == 3:
        w = w[:i] + w[i + 1:]
    elif k == 4:
        w = w[:i] + w[i:i + 1].swapcase() + w[i + 1:]
    elif k == 5:
        w = w[:-1]
    else:
        w = w.upper() if src.bool() else w.capitalize()
    return q + w + q or c


def edit_tokens(src, toks):
    toks = list(toks)
    i = src.draw(len(toks))
    k = src.draw(9)
    if k == 8:
        toks[i] = edit_word(src, toks[i])
    elif k == 0:
        del toks[i]
    elif k == 1:
        toks.insert(i, src.pick(JUNK))
    elif k == 2:
        toks[i] = src.pick(JUNK)
    elif k == 3:
        toks.insert(i, toks[i])
    elif k == 4:
        j = min(i + 1, len(toks) - 1)
        toks[i], toks[j] = toks[j], toks[i]
    elif k == 5:
        toks = toks[:i]
    elif k == 6:
        j = src.draw(len(toks))
        toks[i] = toks[j]
    else:
        a, b = sorted((i, min(len(toks), i + src.int(1, 8))))
        cut = toks[a:b]
        del toks[a:b]
        if src.bool():
            j = src.draw(len(toks) + 1)
            toks[j:j] = cut
    return toks


def edit_chars(src, text):
    """text: bytes"""
    if not text:
        return text
    i = src.draw(len(text))
    k = src.draw(6)
    if k == 0:
        return text[:i] + text[i + 1:]
    c = src.pick(['"', "/", "*", "\n", "{", "}", ";", "=", "[", "]", ",", ".", "\0", "\udcff", "\r", "0", "a", "_", "-", "'", "\\", "\t", " ", "<", ">", "$", "\x7f", "é"]).encode("utf-8", "surrogateescape")
    if k < 3:
        return text[:i] + c + text[i:]
    if k == 3:
        return text[:i] + c + text[i + 1:]
    if k == 4:
        return text[:i]
    j = min(len(text), i + src.int(1, 30))
    return text[:i] + text[j:]


def make_text(src):
    s = small_schema(src)
    kind = "valid"
    k = src.draw(10)
    if k < 4:
        kind = plant(src, s)
    toks = S.tokens(s)
    if kind == "syntax":
        # another version of the language
        at = [i for i, t in enumerate(toks) if i < 6 and t[1:-1] == "proto3"]
        for i in at:
            toks[i] = edit_word(src, toks[i])
    if 4 <= k < 7 or src.bool(1, 10):
        for _ in range(src.pick([1, 1, 2])):
            if toks:
                toks = edit_tokens(src, toks)
        kind += "+tokens" if k < 4 else ""
        kind = kind if kind != "valid" else "tokens"
    if src.bool(2, 3) or not toks:
        # newlines and comments in front of the error matter for its position
        text = c10.layout(src, toks) if src.bool() else S.layout(src, toks)
    else:
        text = S.render(s, toks)
    text = raw_text(text)
    if k >= 7:
        for _ in range(src.pick([1, 1, 2])):
            text = edit_chars(src, text)
        kind = "characters"
    if src.bool(1, 8):
        text = shift(src, text)
    return kind, text


EDGES = [10, 100, 127, 128, 129, 255, 256, 257, 512, 768, 1000, 1024, 4096, 10000, 32768, 65536]


def shift(src, text):
    """Moves the first problem to a line or column at the edge of common widths, with white space and comments in front."""
    w = protoref.judge(text).where()
    if w is None:
        return text
    n = src.pick(EDGES)
    if src.bool(2, 3):
        n -= w[0]
        unit = src.pick([b"\n", b"\n", b"\r\n", b"//\n", b"/**/\n", b"// x\r\n"])
        return unit * n + text if n > 0 else text
    n -= w[1]
    lines = text.split(b"\n")
    if n <= 0 or w[0] > len(lines):
        return text
    k = w[0] - 1
    front = src.pick([b" " * n, b"\t" * n, b"/*" + b"*" * (n - 4) + b"*/" if n >= 4 else b" " * n])
    return b"\n".join(lines[:k] + [front + lines[k]] + lines[k + 1:])


def judge_run(r, text, v, paths):
    if r.timeout or r.rc < 0:
        return "the compiler %s" % ("hangs" if r.timeout else "is killed by signal %d" % -r.rc)
    if r.rc == 0:
        if v.kind == "reject":
            return "an invalid schema is accepted: %s" % "; ".join(v.describe())
        return None
    err = r.err.decode("utf-8", "replace").strip()
    if v.kind == "ok":
        return "a valid schema is refused: %s" % err[:300]
    m = protoref.DIAG.search(r.err)
    if not m:
        return "the schema is refused without a diagnostic of the form file:line:column: error: %s" % err[:300]
    if m.group(1) not in paths:
        return "the diagnostic names another file: %s" % err[:300]
    line, col = int(m.group(2)), int(m.group(3))
    if not v.located(line, col):
        return "the diagnostic is not at the problem: %s, expected %s" % (err[-200:], "; ".join(v.describe()))
    return None


def maker(ctx, part, work):
    path = os.path.join(work, "schema.proto")
    paths = (os.fsencode(path), os.fsencode(os.path.realpath(path)))

    def make(src):
        kind, text = make_text(src)
        v = protoref.judge(text)

        def judge():
            return judge_run(c10.compile_at(path, text), text, v, paths)
        return Plain(text, v.kind != "any" and kind != "valid", {"edit": kind, "text": text.decode("utf-8", "backslashreplace"), "expected": [v.kind] + v.describe()}, judge,
                     [v.kind, "edit: " + kind])
    return make


def partitions(ctx):
    n, k = (24, 2) if ctx.quick else (240, 8)
    return ["fuzz%d" % i for i in range(k)] + list(range(n))


def fuzz(ctx, part, st):
    """Inputs found by coverage-guided search over the whole program, judged by the recogniser."""
    from . import c12
    from ..driver import SAN_ENV
    exe = c12.fuzz_target()
    with Work() as work:
        corpus = os.path.join(work, "corpus")
        os.mkdir(corpus)
        src = ctx.src("fuzz", part)
        for i in range(100):
            text = make_text(src)[1]
            if len(text) < 800:
                with open(os.path.join(corpus, "seed%d" % i), "wb") as f:
                    f.write(text)
        with open(os.path.join(work, "dict"), "w") as f:
            for w in c12.WORDS:
                f.write('"%s"\n' % w)
        env = dict(build.ENV)
        env.update(SAN_ENV)
        env["PG_FUZZ_DIR"] = work
        r = build.run([exe, "-seed=%d" % (seed_of(ctx.seed, part) % 2000000000 + 1), "-runs=%d" % (60000 if ctx.quick else 800000), "-max_len=500", "-timeout=20", "-rss_limit_mb=4096",
                       "-dict=" + os.path.join(work, "dict"), "-artifact_prefix=" + os.path.join(work, "art-"), "-max_total_time=%d" % (60 if ctx.quick else 500), corpus],
                      timeout=900, mem=0, cpu=1200, env=env, stdout=subprocess.DEVNULL)
        # a crash is for C12 to report
        st.label("fuzzer runs")
        path = os.path.join(work, "schema.proto")
        paths = (os.fsencode(path), os.fsencode(os.path.realpath(path)))
        for x in sorted(os.listdir(corpus)):
            with open(os.path.join(corpus, x), "rb") as f:
                text = f.read()
            v = protoref.judge(text)
            st.count(text, v.kind != "any")
            st.label("found by the fuzzer: " + v.kind)
            why = judge_run(c10.compile_at(path, text), text, v, paths)
            if why is not None:
                # smaller, by removing pieces
                k = max(1, len(text) // 2)
                while k >= 1:
                    i = 0
                    while i + k <= len(text):
                        t = text[:i] + text[i + k:]
                        w = judge_run(c10.compile_at(path, t), t, protoref.judge(t), paths)
                        if w is not None:
                            text, why = t, w
                        else:
                            i += k
                    k //= 2
                yield Violation(why, {"part": part, "input": text})
                return


def judge_input(text):
    with Work() as work:
        path = os.path.join(work, "schema.proto")
        return judge_run(c10.compile_at(path, text), text, protoref.judge(text), (os.fsencode(path), os.fsencode(os.path.realpath(path))))


def prepare(ctx):
    build.exe()
    build.protogen("fuzz")


def run_part(ctx, part, st):
    if isinstance(part, str):
        yield from fuzz(ctx, part, st)
        return
    with Work() as work:
        yield from plain_cases(ctx, part, maker(ctx, part, work), 500 if ctx.quick else 2500, st)


def replay(ctx, info):
    with Work() as work:
        return maker(ctx, info["part"], work)(Src(replay=info["choices"])).judge()
