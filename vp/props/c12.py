"""C12: the compiler survives arbitrary input files (sanitized build, coverage-guided fuzzing, scaling)."""
import glob
import os
import re
import resource
import shutil
import signal
import struct
import subprocess
import threading
from .common import *
from .. import build, protoref
from ..driver import HARNESS, SAN_ENV, summary
from ..core import shrink
from . import c10, c11

RULE = ("a case is one input file (damaged schema, spliced, random bytes or symbols) compiled by an AddressSanitizer/UBSan build of the program, or a file made of a unit "
        "repeated n and n/16 times compiled by the ordinary build with its processor time and memory measured, or one libFuzzer execution of the whole program; "
        "non-trivial: the file has more than 16 bytes (fuzzer: an entry of the corpus); distinct by content")
ASSUMPTIONS = ["undefined behaviour is what clang's address and undefined sanitizers report",
               "proportionate: 16 times the input may take at most 3 times as much as 16 times the processor time and memory (or 16 times less, in proportion to the output), small amounts apart",
               "chains of some 60,000 messages must do with a stack of 2 MiB, everything else with the usual 8 MiB"]


def partitions(ctx):
    n, k, g = (12, 3, 12) if ctx.quick else (100, 8, 80)
    return ["chain%d" % i for i in range(len(CHAINS))] + ["fuzz%d" % i for i in range(k)] + ["grow%d" % i for i in range(g)] + list(range(n))


def prepare(ctx):
    build.exe()
    build.exe("san")
    build.protogen("fuzz")


# ---------------------------------------------------------------- structured inputs, sanitizers

def hostile(src):
    k = src.draw(12)
    if k < 5:
        kind, text = c11.make_text(src)
        if src.bool(1, 3):
            for _ in range(src.int(1, 6)):
                text = c11.edit_chars(src, text)
        return "damaged", text
    if k == 5:
        a, b = c11.make_text(src)[1], c11.make_text(src)[1]
        return "spliced", a[:src.draw(len(a) + 1)] + b[src.draw(len(b) + 1):]
    if k == 6:
        return "random", bytes(src.list(40, 400, lambda q: q.draw(256)))
    if k == 7:
        toks = [src.pick(c11.JUNK) for _ in range(src.int(0, 60))]
        return "random words", raw_text(src.pick([" ", "\n", ""]).join(toks))
    if k == 8:
        # a valid start, then whatever
        head = raw_text(src.pick(['syntax="proto3";', 'syntax = "proto3"; package a.b;', 'syntax="proto3";message A{', 'syntax="proto3";message A{int32 a=1', 'syntax="proto3";message A{int32 a=1[',
                                  'syntax="proto3";option ', 'syntax="proto3";/*', 'syntax="proto3";message A{int32 a=1[name="', 'syntax="proto3";option x="', 'syntax="']))
        n = src.pick([3, 20, 200, 20000])
        if n <= 20:
            tail = bytes(src.draw(256) for _ in range(src.draw(n + 1)))
        else:
            unit = src.pick([b"a", b"\xff", b"\0", b"[", b"{", b".", b"1", b"\n", b"/", b"*", b"//\n", b"/*", b"/**/", b'"', b'""', b"\\", b"\xc3\xa9", b"%", b"$", b"=", b";", b","])
            tail = unit * (src.int(1, n) // len(unit))
        return "start", head + tail
    if k == 9:
        text = c11.make_text(src)[1]
        i = src.draw(len(text) + 1)
        unit = src.pick([b"a", b"\xff", b"\0", b"9", b"(", b"{", b"[", b" ", b"\n", b'"', b"/*", b"a.", b"\x80", b"_", b"0", b"$", b"'", b"\t", b"*/", b"=1"])
        return "long run", text[:i] + unit * src.pick([10, 300, 5000, 70000]) + text[i:]
    if k == 10:
        return "encoding", src.pick([b"\xef\xbb\xbf", b"\xff\xfe", b"\0\0\xfe\xff"]) + c11.make_text(src)[1] if src.bool() else \
            c11.make_text(src)[1].decode("utf-8", "replace").encode(src.pick(["utf-16", "utf-16-be", "utf-32", "utf-7"]), "replace")
    return "empty", src.pick([b"", b"\0", b" ", b"\n", b"/", b'"', b"//", b"/*", b"s", b"\xff", b"1", b";", b"syntax", b'syntax="proto3"', b'syntax="proto3";', b'syntax = "proto2";', b"#", b"-"])


def execute(exe, path, env=None, timeout=25):
    out = os.path.join(os.path.dirname(path), "out.hh")
    return build.run([exe, path, out], timeout=timeout, mem=0, cpu=20, env=env)


def status(r, what):
    if r.timeout:
        return "the compiler hangs: " + what
    err = r.err.decode("utf-8", "replace")
    if r.rc not in (0, 1):
        return "the compiler ends with status %d: %s\n%s" % (r.rc, what, summary(err) or err[:300])
    if "runtime error" in err and "SUMMARY" in err:
        return "undefined behaviour: %s\n%s" % (what, summary(err))
    if r.rc == 1 and not err.strip():
        return "the compiler refuses the file without a message: " + what
    return None


def maker(ctx, part, work):
    path = os.path.join(work, "schema.proto")
    exe = build.exe("san")
    env = dict(build.ENV)
    env.update(SAN_ENV)

    def make(src):
        kind, text = hostile(src)

        def judge():
            with open(path, "wb") as f:
                f.write(text)
            return status(execute(exe, path, env), short(text))
        return Plain(text, len(text) > 16, {"kind": kind, "length": len(text), "text": short(text)}, judge, [kind])
    return make


# ---------------------------------------------------------------- growth

# (head, unit, tail); %d: index, %e: previous index, %g: next index, %x: a field number
HEAD = 'syntax="proto3";'
UNITS = [
    (HEAD, "message M%d{int32 a=1;}", ""), (HEAD, "message M%d{M%e a=1;}", "message M-1{}"), (HEAD, "message M%d{repeated M%g a=1;}", "message M{n}{}"),
    (HEAD, "message M%d{T a=1;}", "message T{}"), (HEAD + "message T{}", "message M%d{T a=1;T b=2;T c=3;}", ""), (HEAD + "package p.q;", "message M%d{p.q.M%g a=1;}", "message M{n}{}"),
    (HEAD, "option x=1;", ""), (HEAD, 'option x%d="%d";', ""), (HEAD + "message A{", "option x=1;", "}"), (HEAD + "message A{int32 a=1[", "x=1,", "y=1];}"),
    (HEAD + "message A{", "int32 a%d=%x;", "}"), (HEAD + "message A{", "int32 a%d=%x;", "}message M{n}{}"), (HEAD + "message A{", "int32 a=1;", "}"), (HEAD + "message A{", "B b%d=%x;", "}"), (HEAD + "package a", ".a", ";message A{}"),
    (HEAD + "package a", "%d", ";message A{}"), (HEAD + "package a", ".a", ";message A{} message B{A a=1;}"), (HEAD + "message A{", "message B%d{int32 a=1;}", "}"), (HEAD + "message A{B", ".b", " a=1;}"), (HEAD + "option a", ".b", "=1;"),
    (HEAD + "message A", "a", "{}"), (HEAD + "message A{int32 a", "b", "=1;}"), (HEAD + 'message A{int32 a=1[name="', "a", '"];}'), (HEAD + 'message A{int32 a=1[name="', "é", '"];}'),
    (HEAD + 'option obfuscate_strings=true;message A{int32 a=1[name="', "ab", '"];}'), (HEAD + 'message A{int32 a=1[name="', "\\", '"];}'), (HEAD + 'message A{int32 a=', "1", ';}'), (HEAD + 'message A{int32 a=', "0", '1;}'),
    ("", " ", HEAD), ("", "\n", HEAD), ("", "\r\n", HEAD), ("", "//\n", HEAD), ("", "/**/", HEAD), ("/*", "*", "*/" + HEAD), ("/*", " / * ", "*/" + HEAD), ("//", "/", "\n" + HEAD), ("/*", "\n", ""), ("//", "x", ""),
    ("", "{", ""), ("", "[", ""), ("", '"', ""), ("", "/*", ""), ("", "a ", ""), ("", "1", ""), ("", "\0", ""), (HEAD, ";", ""), (HEAD, "{", ""), (HEAD, "message A{", ""), (HEAD, "message A{}", ""), (HEAD + "message A{", "}", ""),
    (HEAD, "message M%d{int32 a=1;} /* x */ // y\n", ""), (HEAD, "message M%d{option a=1; string s=1[name=\"n%d\",transient=true]; repeated bytes b=2; double d=3;}", ""), (HEAD, "import \"a\";", ""),
    (HEAD, "message M%d{M%e a=1; M%e b=2; M%e c=3;}", "message M-1{}"), (HEAD, "enum E%d{A=0;}", ""), (HEAD + "message A{", "M%d a%d=%x;", "}"), (HEAD, "package a%d;", ""), ("", HEAD, ""),
    (HEAD + "option obfuscate_strings=true;", "message M%d{int32 a=1[name=\"n%d\"];}", ""), (HEAD + "option cpp_use_lists=true;", "message M%d{repeated int32 a=1;}", ""),
    (HEAD, "message M%d{" + "".join("int32 f%d=%d;" % (i, i) for i in range(1, 65)) + "}", ""),
]


def grown(unit, n):
    head, u, tail = unit
    if "%" in u:
        body = "".join(u.replace("%d", str(i)).replace("%e", str(i - 1) if i else "Z").replace("%g", str(i + 1)).replace("%x", str(i if i < 19000 else i + 1000)) for i in range(1, n + 1))
        body = body.replace("MZ", "M0")
    else:
        body = u * n
    tail = tail.replace("M-1", "M0").replace("{n}", str(n + 1))
    return (head + body + tail).encode("utf-8")


def measured(exe, path):
    """(run, processor seconds, maximum resident bytes)"""
    out = os.path.join(os.path.dirname(path), "out.hh")
    err = open(os.path.join(os.path.dirname(path), "err.txt"), "wb")

    def pre():
        resource.setrlimit(resource.RLIMIT_CPU, (40, 41))
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_FSIZE, (3 << 30, 3 << 30))
    p = subprocess.Popen([exe, path, out], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=err, env=build.ENV, preexec_fn=pre)
    timer = threading.Timer(200, p.kill)
    timer.start()
    _, st, ru = os.wait4(p.pid, 0)
    timer.cancel()
    rc = -os.WTERMSIG(st) if os.WIFSIGNALED(st) else os.WEXITSTATUS(st)
    p.returncode = rc
    err.close()
    with open(err.name, "rb") as f:
        text = f.read(10000)
    hung = rc in (-signal.SIGXCPU, -signal.SIGKILL)
    n = os.path.getsize(out) if rc == 0 and os.path.exists(out) else 0
    if os.path.exists(out):
        os.remove(out)
    return build.Run(rc, b"", text, hung), ru.ru_utime + ru.ru_stime, ru.ru_maxrss * 1024, n


def grow_maker(ctx, part, work):
    path = os.path.join(work, "schema.proto")
    exe = build.exe()
    order = UNITS

    def make(src):
        unit = order[src.draw(len(order))]
        heavy = len(unit[1]) > 500
        cap = (2 << 20) if not heavy else (1 << 20)
        if "message" in unit[1] and "%d" in unit[1]:
            cap = 400 << 10 if not heavy else 200 << 10
        if not ctx.quick:
            cap *= 3
        n = max(32, cap // (len(unit[1]) + 4))
        n = n * src.int(2, 4) // 4

        def judge():
            res = []
            for k in (n // 16, n):
                text = grown(unit, k)
                with open(path, "wb") as f:
                    f.write(text)
                r, cpu, mem, out = measured(exe, path)
                what = "%d times %r between %r and %r (%d bytes)" % (k, unit[1][:80], unit[0][:80], unit[2], len(text))
                why = status(r, what)
                if why is not None:
                    return why
                for _ in range(2):
                    # noise only ever adds
                    if k == n and cpu > 1.0:
                        cpu = min(cpu, measured(exe, path)[1])
                res.append((cpu, mem, len(text) + out, what))
            (c0, m0, s0, _), (c1, m1, s1, what) = res
            factor = 3 * max(16.0, s1 / float(s0))
            if c1 > 1.5 and c1 > factor * (c0 + 0.03):
                return "the time is out of proportion: %.2f s for 1/16 of the input and %.2f s for %s" % (c0, c1, what)
            if m1 > (96 << 20) and m1 > factor * (m0 - (3 << 20)):
                return "the memory is out of proportion: %d KiB for 1/16 of the input and %d KiB for %s" % (m0 >> 10, m1 >> 10, what)
            return None
        return Plain(repr((unit, n)), True, {"unit": unit[1][:200], "between": [unit[0][:200], unit[2]], "times": n}, judge, ["growth"])

    return make


def grow(ctx, part, st):
    idx = int(part[4:])
    count = -(-len(UNITS) // 12) if ctx.quick else 6
    with Work() as work:
        make = grow_maker(ctx, part, work)
        for i in range(count):
            k = (idx * count + i) % len(UNITS)
            src0 = ctx.src("growth", part, i)
            size = src0.draw(3)
            c = make(Src(replay=[k, size]))
            why = c.judge()
            st.count(c.key, True)
            st.label("growth")
            if why is None:
                if i == 0:
                    st.sample(c.describe, 1)
                continue
            if make(Src(replay=[k, size])).judge() is None:
                st.label("not reproducible: " + why[:60])
                continue
            yield Violation(why, {"part": part, "tag": "", "choices": [k, size], "case": c.describe})
            return


# ---------------------------------------------------------------- long chains

CHAINS = [(HEAD, "message M%d{M%e a=1;}", "message M-1{}"), (HEAD, "message M%d{M%g a=1;}", "message M{n}{}"), (HEAD, "message M%d{repeated M%g a=1;int32 b=2;}", "message M{n}{M1 a=1;}")]


def chain(ctx, part, st):
    """Recursion over the schema shows as a stack overflow; a quarter of the usual stack makes up for chains that can not be arbitrarily long."""
    unit = CHAINS[int(part[5:])]
    src = ctx.src("chain", part)
    for _ in range(1 if ctx.quick else 3):
        n = src.int(55000, 60000) if ctx.quick else src.int(60000, 250000)
        text = grown(unit, n)
        with Work() as work:
            path = os.path.join(work, "schema.proto")
            with open(path, "wb") as f:
                f.write(text)

            def pre():
                resource.setrlimit(resource.RLIMIT_STACK, (2 << 20, 2 << 20))
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                resource.setrlimit(resource.RLIMIT_CPU, (100, 101))
            p = subprocess.Popen([build.exe(), path, "/dev/null"], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=build.ENV, preexec_fn=pre)
            _, err = p.communicate()
        st.count(text, True)
        st.label("chain")
        why = status(build.Run(p.returncode, b"", err, False), "a chain of %d times %r" % (n, unit[1]))
        if why is None and p.returncode != (1 if "M1 a" in unit[2] else 0):
            why = "status %d for a chain of %d times %r: %s" % (p.returncode, n, unit[1], short(err))
        if why is not None:
            yield Violation(why, {"part": part, "case": {"unit": unit, "times": n}})
            return


# ---------------------------------------------------------------- coverage-guided

FUZZ_LOCK = "fuzz-target.lock"


def fuzz_target():
    """Links the objects of the program (main and exit renamed) with the fuzzer's driver."""
    import fcntl
    d = build.protogen("fuzz")
    exe = os.path.join(build.cache_dir(), "fuzz-target")
    with open(os.path.join(build.cache_dir(), FUZZ_LOCK), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe):
            return exe
        objs = []
        for i, o in enumerate(sorted(glob.glob(os.path.join(d, "CMakeFiles", "protogen.dir", "**", "*.o"), recursive=True))):
            t = os.path.join(build.cache_dir(), "fuzz-obj-%d.o" % i)
            subprocess.run(["objcopy", "--redefine-sym", "main=pg_main", "--redefine-sym", "exit=pg_exit", o, t], check=True)
            objs.append(t)
        libs = sorted(glob.glob(os.path.join(d, "*.a"))) + sorted(glob.glob(os.path.join(d, "CMakeFiles", "**", "*.a"), recursive=True))
        cmd = ["clang++", "-std=c++11", "-O1", "-g1", "-fsanitize=fuzzer,address,undefined", "-fno-sanitize-recover=all", os.path.join(HARNESS, "fuzz_main.cc")] + objs + libs + ["-o", exe + ".tmp"]
        r = subprocess.run(cmd, env=build.ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise RuntimeError("the fuzz target can not be linked:\n" + r.stdout.decode(errors="replace")[-3000:])
        os.rename(exe + ".tmp", exe)
    return exe


WORDS = ['syntax', 'proto3', 'message', 'package', 'option', 'optional', 'repeated', 'int32', 'uint64', 'sfixed32', 'double', 'string', 'bytes', 'bool', 'true', 'false', 'obfuscate_strings', 'number_names', 'cpp_use_lists',
         'transient', 'name', '/*', '*/', '//', 'syntax=\\"proto3\\";', '{int32 a=1;}', '[name=\\"x\\"]', '[transient=true]', 'map', 'enum', 'oneof', 'import', 'reserved', '536870911', '19000', 'message A{', 'B b=2;', 'int', 'class']


def fuzz(ctx, part, st):
    exe = fuzz_target()
    idx = int(part[4:])
    with Work() as work:
        corpus = os.path.join(work, "corpus")
        os.mkdir(corpus)
        src = ctx.src("fuzz", part)
        for i in range(80):
            text = c11.make_text(src)[1]
            if len(text) > 1500:
                continue
            with open(os.path.join(corpus, "seed%d" % i), "wb") as f:
                f.write(text)
        with open(os.path.join(work, "dict"), "w") as f:
            for w in WORDS:
                f.write('"%s"\n' % w)
        env = dict(build.ENV)
        env.update(SAN_ENV)
        env["PG_FUZZ_DIR"] = work
        art = os.path.join(work, "art-")
        runs = 80000 if ctx.quick else 1000000
        cmd = [exe, "-seed=%d" % (seed_of(ctx.seed, part) % 2000000000 + 1), "-runs=%d" % runs, "-max_len=1500", "-timeout=20", "-rss_limit_mb=4096", "-dict=" + os.path.join(work, "dict"),
               "-artifact_prefix=" + art, "-print_final_stats=1", "-max_total_time=%d" % (100 if ctx.quick else 600), corpus]
        r = build.run(cmd, timeout=900, mem=0, cpu=1200, env=env, stdout=subprocess.DEVNULL)
        log = r.err.decode(errors="replace")
        m = re.search(r"stat::number_of_executed_units:\s*(\d+)", log)
        n = int(m.group(1)) if m else 0
        st.evaluations += n
        st.label("fuzzer executions", n)
        names = os.listdir(corpus)
        for x in names:
            with open(os.path.join(corpus, x), "rb") as f:
                st.nontrivial.add(struct.pack("<I", idx) + f.read()[:64])
        found = [x for x in os.listdir(work) if x.startswith("art-")]
        if found:
            path = os.path.join(work, found[0])
            small = os.path.join(work, "small")
            build.run([exe, "-minimize_crash=1", "-runs=20000", "-max_total_time=20", "-exact_artifact_path=" + small, path], timeout=60, mem=0, cpu=60, env=env, stdout=subprocess.DEVNULL)
            for use in (small, path):
                if not os.path.exists(use):
                    continue
                again = build.run([exe, use], timeout=60, mem=0, cpu=60, env=env, stdout=subprocess.DEVNULL)
                if again.rc != 0:
                    with open(use, "rb") as f:
                        data = f.read()
                    err = again.err.decode(errors="replace")
                    yield Violation("an input file breaks the compiler: %s\n%s" % (short(data), summary(err) or err[-300:]), {"part": part, "input": data})
                    return
            st.label("not reproducible fuzzer artifact")
        elif r.rc != 0 and "libFuzzer: out-of-memory" not in log:
            raise RuntimeError("the fuzzer stopped: " + log[-1500:])
        # the program itself on what the fuzzer found
        plain = build.exe()
        for x in sorted(names)[:400 if ctx.quick else 4000]:
            path = os.path.join(corpus, x)
            with open(path, "rb") as f:
                data = f.read()
            st.count(data, len(data) > 16)
            why = status(execute(plain, path), short(data))
            if why is not None:
                yield Violation(why, {"part": part, "input": data})
                return
        st.sample({"fuzzer": part, "executions": n, "corpus": len(names)}, 1)


def judge_input(data):
    """Replays an input found by the fuzzer: in the fuzz target and in the program."""
    exe = fuzz_target()
    with Work() as work:
        path = os.path.join(work, "schema.proto")
        with open(path, "wb") as f:
            f.write(data)
        env = dict(build.ENV)
        env.update(SAN_ENV)
        env["PG_FUZZ_DIR"] = work
        r = build.run([exe, path], timeout=60, mem=0, cpu=60, env=env, stdout=subprocess.DEVNULL)
        if r.rc != 0:
            return "an input file breaks the compiler: " + (summary(r.err.decode(errors="replace")) or "status %d" % r.rc)
        return status(execute(build.exe(), path), short(data))


def run_part(ctx, part, st):
    if isinstance(part, str):
        yield from {"fuzz": fuzz, "grow": grow, "chai": chain}[part[:4]](ctx, part, st)
        return
    with Work() as work:
        yield from plain_cases(ctx, part, maker(ctx, part, work), 250 if ctx.quick else 2000, st)


def replay(ctx, info):
    part = info["part"]
    with Work() as work:
        make = grow_maker(ctx, part, work) if isinstance(part, str) else maker(ctx, part, work)
        return make(Src(replay=info["choices"])).judge()
