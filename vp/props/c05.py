"""C05: deserialising hostile bytes is memory-safe and terminates (sanitized drivers and coverage-guided fuzzing)."""
import os
import re
import shutil
import struct
import subprocess
import tempfile
from .common import *
from .. import arrays, build
from ..driver import compile_header, namespace_of, HARNESS, SAN_ENV, FLAGS
from . import c04

RULE = ("a case is one hostile byte sequence (damaged, truncated, spliced, deeply nested, very long or random) given to one entry point of an "
        "AddressSanitizer/UBSan build, and read back after re-serialisation when it is accepted; libFuzzer executions count as evaluations, its corpus "
        "entries as distinct non-trivial cases; otherwise non-trivial: the text is longer than 16 bytes; distinct by schema text and request")
ASSUMPTIONS = ["undefined behaviour is what clang's address and undefined sanitizers report, or a crash, or a case that takes more than 20 s",
               "the stack limit is the usual 8 MiB"]


def partitions(ctx):
    n, k = (10, 4) if ctx.quick else (90, 8)
    # the fuzzer takes longest, so it starts first
    return ["fuzz%d" % i for i in range(k)] + list(range(n))


def driver_for(ctx, part):
    s = arrays.seeded(schema_of(ctx, part, max_msgs=4, max_fields=10))
    return Driver(s, kind="asan", ext=arrays.ext_code(s))


def nested(src, s, m):
    n = src.pick([50, 1000, 20000, 200000, 200000])
    k = src.draw(9)
    o, c = src.pick([("[", "]"), ('{"a":', "}"), ('[{"":[', "]}]"), ("[0,", "]"), ('{"a":1,"b":', "}"), (' [\n', " ]"), ('{"\\u0041":[', "]}")])
    body = o * n
    if k < 4:
        body += src.pick(["1", "null", "{}", "[]", '""', "true"]) + c * n
    elif k < 7:
        body += src.pick(["", "1", "x", '"']) + c * src.draw(n)
    else:
        body += "1" + c * n + c
    names = [s.jname(f) for f in m.fields] or ["q"]
    name = src.pick(names) if src.bool(1, 3) else "unknown"
    k = src.draw(4)
    if k == 0:
        return body
    return "{" + V.render_text(V.Zero, name) + ":" + body + ("}" if k < 3 else "")


def long_one(src, s, m):
    n = src.pick([1000, 70000, 1000000])
    k = src.draw(14)
    names = [s.jname(f) for f in m.fields if not f.transient] or ["q"]
    name = V.render_text(V.Zero, src.pick(names) if src.bool(2, 3) else "unknown")
    unit = src.pick(["a", "\\n", "\\u0041", "\\ud83d\\ude00", "é", "\\\\", "A", "AAAA", "\x7f", "\\u0000"])
    val = ['"' + unit * (n // len(unit)) + '"', '"' + unit * (n // len(unit)), "1" * n, "0." + "0" * n + "1", "1e" + "9" * n, "-" * n, "x" * n,
           "[" + "1," * (n // 2) + "1]", "[" + '"a",' * (n // 4) + '"a"]', "[" + "{}," * (n // 3) + "{}]", "[" + "null," * (n // 5) + "null]",
           " " * n + "1", "1" + "0" * n + "e-" + str(n), "e" * n][k]
    if src.bool(1, 8):
        # very many members
        return "{" + ",".join(name + ":" + src.pick(["null", "[]", "[1]", "{}", '"a"', "[\"AA==\"]"]) for _ in range(n // 20)) + "}"
    return "{" + name + ":" + val + src.pick(["}", "", ",", "]"])


def hostile(src, s, m):
    k = src.draw(16)
    if k < 9:
        return c04.gen_text(src, s, m)[0], "damaged"
    if k == 9 and src.bool(1, 2):
        return nested(src, s, m).encode("utf-8"), "nested"
    if k == 10 and src.bool(1, 2):
        return long_one(src, s, m).encode("utf-8"), "long"
    if k in (11, 12):
        v = V.drop_transient(m, V.gen_msg(src, m, [20]))
        b = V.render_msg(src, s, m, v).encode("utf-8")
        return c04.mutate_bytes(src, c04.mutate_bytes(src, b)), "bytes"
    if k == 13:
        # splice of two texts
        a, b = c04.gen_text(src, s, m)[0], c04.gen_text(src, s, m)[0]
        return a[:src.draw(len(a) + 1)] + b[src.draw(len(b) + 1):], "spliced"
    if k == 14:
        return bytes(src.pick(b'{}[]:,"\\ue019-+.tfn \n\x00\xff\x80a') for _ in range(src.int(0, 60))), "random symbols"
    return bytes(src.list(20, 200, lambda q: q.draw(256))), "random"


def maker(ctx, part, drv, tag=""):
    s = drv.s
    ts = arrays.types(s)

    def make(src):
        m = src.pick(s.messages)
        text, kind = hostile(src, s, m)
        mode = src.draw(3)
        o = Ops(s)
        if src.bool(1, 4):
            t = src.pick([x for x in ts if x.message is m] * 4 + ts)
            if src.bool(2, 3) and kind != "nested":
                text = b"[" + text + b"," + text + b"]" if len(text) < 10000 else b"[" + text + b"]"
            arrays.des(o, t, src.draw(3), src.draw(4), text, mode, False, False)

            def check(res):
                return None
            label = "array helper"
        else:
            source = src.draw(5)
            o.new(m, 0)
            if src.bool(1, 5):
                o.set(m, 0, V.gen_msg(src, m, [10]))
            o.des(m, 0, text, source, mode, False, src.bool())
            o.new(m, 1)
            o.des(m, 1, text, source, mode, False, False)
            o.round(m, 1, 2, src.draw(5), mode, False, src.bool())
            o.eq(m, 1, 2)

            def check(res):
                r, r1, rr, eq = res
                if not r1["ok"]:
                    return None
                if not rr["ok"]:
                    return "an accepted document gives an object that can not be serialised: %s %r" % (short(text), rr["err"])
                if not rr["ok2"]:
                    return "the text of an accepted object is refused: %s -> %s %r" % (short(text), short(rr["out"]), rr["err2"])
                if eq != (True, False, True):
                    return "the text of an accepted object gives another object: %s -> %s" % (short(text), short(rr["out"]))
                return None
            label = "source%d" % source
        return Case(o, check, len(text) > 16, {"message": m.name, "text": short(text), "length": len(text)}, [kind, label])
    return make


# ---------------------------------------------------------------- coverage-guided part

FUZZ_SCHEMA = """syntax = "proto3";
package fz;
%s
message Inner { string s = 1; repeated int32 n = 2; double d = 3; bytes b = 4; bool f = 5 [name = "\\q\u00e9"]; repeated string rs = 6; }
message Mid { Inner i = 1; repeated Inner ri = 2; uint64 u = 3; sfixed32 x = 4; string gone = 5 [transient = true]; }
message Top { Mid m = 1; repeated Mid rm = 2; int64 l = 3; float f = 4; repeated double rd = 5; repeated bytes rb = 6; repeated bool t = 7; string s = 8 [name = "with space"];
  uint32 u = 9; repeated uint64 ru = 10; repeated float rf = 11; int32 i = 12; }
"""

FUZZ_CODE = r"""
#include "%(header)s"
#include <deque>
#include <stdio.h>
#include <string.h>
namespace pg = %(ns)s;
template<class M> void once(const uint8_t *d, size_t n, unsigned how)
{
    M a;
    pg::Parameters p;
    p.ensure_ascii = (how & 1) != 0;
    p.serialize_null = (how & 2) != 0;
    pg::Parameters *pp = (how & 4) ? &p : nullptr;
    bool ok = false;
    char *exact = (char*) malloc(n);
    if (n) memcpy(exact, d, n);
    switch ((how >> 3) & 3)
    {
        case 0: ok = a.deserialize(exact, n, pp); break;
        case 1: ok = a.deserialize(std::string(exact, n), pp); break;
        case 2: ok = a.deserialize(std::vector<char>(exact, exact + n), pp); break;
        default: { std::istringstream is(std::string(exact, n)); ok = a.deserialize(is, pp); }
    }
    free(exact);
    if (pp && ok != (p.error.code == pg::PGERR_OK)) { fprintf(stderr, "result and error code disagree\n"); abort(); }
    if (pp && !ok && (p.error.line < 1 || p.error.column < 1 || p.error.message.empty())) { fprintf(stderr, "error without location or message\n"); abort(); }
    if (!ok) return;
    std::string text;
    pg::Parameters q;
    q.serialize_null = p.serialize_null;
    if (!a.serialize(text, &q)) { fprintf(stderr, "accepted object is not serialised\n"); abort(); }
    M b;
    if (!b.deserialize(text, &q)) { fprintf(stderr, "text of an accepted object is refused: %%s\n", text.c_str()); abort(); }
    if (!(a == b) || a != b) { fprintf(stderr, "text of an accepted object gives another object: %%s\n", text.c_str()); abort(); }
}
template<class C> void arr(const uint8_t *d, size_t n)
{
    C c;
    char *exact = (char*) malloc(n);
    if (n) memcpy(exact, d, n);
    bool ok = pg::deserialize_array(c, exact, n);
    free(exact);
    if (!ok) return;
    std::string text;
    if (!pg::serialize_array(c, text)) { fprintf(stderr, "accepted array is not serialised\n"); abort(); }
    C e;
    if (!pg::deserialize_array(e, text) || !(c == e)) { fprintf(stderr, "text of an accepted array gives another array: %%s\n", text.c_str()); abort(); }
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *d, size_t n)
{
    if (n < 1) return 0;
    unsigned how = d[0];
    ++d; --n;
    switch (how >> 5)
    {
        case 0: case 1: case 2: once< ::fz::Top >(d, n, how); break;
        case 3: once< ::fz::Mid >(d, n, how); break;
        case 4: once< ::fz::Inner >(d, n, how); break;
        case 5: if (how & 1) arr< std::vector< ::fz::Mid > >(d, n); else arr< std::list< ::fz::Top > >(d, n); break;
        case 6: if (how & 1) arr< std::vector<int32_t> >(d, n); else if (how & 2) arr< std::deque<double> >(d, n); else arr< std::vector<bool> >(d, n); break;
        default: if (how & 1) arr< std::list<pg::string_field> >(d, n); else if (how & 2) arr< std::vector<uint64_t> >(d, n); else arr< std::vector<std::string> >(d, n);
    }
    return 0;
}
"""


def fuzz(ctx, part, st):
    idx = int(part[4:])
    work = tempfile.mkdtemp(prefix="vp-drv-")
    try:
        opts = ["", "option obfuscate_strings = true;", "option number_names = true;", "option cpp_use_lists = true;"][idx % 4]
        text = FUZZ_SCHEMA % opts
        header = compile_header(text, "f", work)
        with open(os.path.join(work, "f.cc"), "w") as f:
            f.write(FUZZ_CODE % {"header": os.path.basename(header), "ns": namespace_of(header)})
        exe = os.path.join(work, "fuzz")
        cmd = ["clang++", "-std=c++11", "-O1", "-g1", "-w", "-fsanitize=fuzzer,address,undefined", "-fno-sanitize-recover=all", "-I", work, os.path.join(work, "f.cc"), "-o", exe]
        r = subprocess.run(cmd, env=build.ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise Violation("the generated header does not compile", {"schema": text, "errors": r.stdout.decode(errors="replace")[:3000]})
        corpus = os.path.join(work, "corpus")
        os.mkdir(corpus)
        src = ctx.src("fuzz", part)
        from .. import protoparse
        s = protoparse.parse(text)
        top, mid, inner = s.messages[2], s.messages[1], s.messages[0]
        for i in range(60):
            m, code = src.pick([(top, 0), (mid, 3), (inner, 4)])
            how = (code << 5) | src.draw(32)
            b = V.render_msg(src, s, m, V.drop_transient(m, V.gen_msg(src, m, [25]))).encode("utf-8")
            if src.bool(1, 4):
                how = (src.int(5, 7) << 5) | src.draw(4)
                b = b"[" + b + b"]"
            with open(os.path.join(corpus, "seed%d" % i), "wb") as f:
                f.write(bytes([how]) + b)
        with open(os.path.join(work, "dict"), "w") as f:
            for w in ['{', '}', '[', ']', ':', ',', '\\"', 'null', 'true', 'false', '\\\\u00', '\\\\ud83d\\\\ude00', '\\\\n', '1e5', '-0.5', '18446744073709551615', 'AA==', '0.1'] + \
                    [s.jname(f).replace("\\", "\\\\\\\\") for f in top.fields + mid.fields + inner.fields]:
                f.write('"%s"\n' % "".join(c if ord(c) < 128 else "".join("\\x%02x" % b for b in c.encode()) for c in w))
        env = dict(build.ENV)
        env.update(SAN_ENV)
        art = os.path.join(work, "art-")
        runs = 60000 if ctx.quick else 2500000
        cmd = [exe, "-seed=%d" % (seed_of(ctx.seed, part) % 2000000000 + 1), "-runs=%d" % runs, "-max_len=2000", "-timeout=20", "-rss_limit_mb=4096", "-dict=" + os.path.join(work, "dict"),
               "-artifact_prefix=" + art, "-print_final_stats=1", "-max_total_time=%d" % (120 if ctx.quick else 600), corpus]
        r = build.run(cmd, timeout=900, mem=0, cpu=1200, env=env)
        log = r.err.decode(errors="replace")
        m = re.search(r"stat::number_of_executed_units:\s*(\d+)", log)
        n = int(m.group(1)) if m else 0
        st.evaluations += n
        st.label("fuzzer executions", n)
        names = [x for x in os.listdir(corpus)]
        for x in names:
            with open(os.path.join(corpus, x), "rb") as f:
                st.nontrivial.add(struct.pack("<I", idx) + f.read()[:64])
        found = [x for x in os.listdir(work) if x.startswith("art-")]
        if found:
            path = os.path.join(work, found[0])
            small = os.path.join(work, "small")
            build.run([exe, "-minimize_crash=1", "-runs=20000", "-max_total_time=20", "-exact_artifact_path=" + small, path], timeout=60, mem=0, cpu=60, env=env)
            use = small if os.path.exists(small) else path
            with open(use, "rb") as f:
                data = f.read()
            again = build.run([exe, use], timeout=60, mem=0, cpu=60, env=env)
            if again.rc == 0:
                use = path
                with open(use, "rb") as f:
                    data = f.read()
                again = build.run([exe, use], timeout=60, mem=0, cpu=60, env=env)
            if again.rc != 0:
                from ..driver import summary
                yield Violation("hostile input breaks deserialisation: %s" % (summary(again.err.decode(errors="replace")) or again.err.decode(errors="replace")[:300]),
                                {"part": part, "input": data, "schema": text})
            else:
                st.label("not reproducible fuzzer artifact")
        elif r.rc != 0 and "libFuzzer: out-of-memory" not in log:
            raise RuntimeError("the fuzzer stopped: " + log[-1500:])
        st.sample({"fuzzer": part, "executions": n, "corpus": len(names)}, 1)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run_part(ctx, part, st):
    if isinstance(part, str):
        yield from fuzz(ctx, part, st)
        return
    with driver_for(ctx, part) as drv:
        yield from check_cases(ctx, part, drv, maker(ctx, part, drv), 350 if ctx.quick else 1500, st)


def replay(ctx, info):
    return replay_driver(__import__(__name__, fromlist=["x"]), ctx, info)
