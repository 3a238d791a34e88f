"""C24: the way in which the application or the compiler is built does not change the results."""
import os
from .common import *
from .. import arrays, build
from ..driver import Builds
from . import c07, c10, c11, c16

RULE = ("a case is one list of operations (histories of objects; texts, valid or not; arrays) answered by a program and by the same program built with other compilers, standards and options, or one "
        "input of protogen and of other builds of it; non-trivial: at least one object, value or document that is not empty; distinct by schema and request")
ASSUMPTIONS = ["the builds are those that the installed g++ and clang++ offer on this machine (64 bits, libstdc++); options that give up the rules of the language (as -ffast-math) are left out"]

# names that standards after C++11 reserve
LATER = set("char8_t co_await co_return co_yield concept consteval constinit requires".split())
STANDARDS = ["-std=c++11", "-std=gnu++11", "-std=c++14", "-std=c++17", "-std=gnu++17", "-std=c++20", "-std=gnu++20", "-std=c++23"]
LEVELS = ["-O0", "-O0", "-O0", "-O1", "-Os", "-O2", "-O3"]
OPTIONS = [["-funsigned-char"], ["-D_GLIBCXX_DEBUG"], ["-D_GLIBCXX_ASSERTIONS"], ["-D_GLIBCXX_USE_CXX11_ABI=0"], ["-fno-rtti"], ["-fno-exceptions"], ["-ftrivial-auto-var-init=pattern"], ["-DNDEBUG"],
           ["-fshort-wchar"], ["-ftrapv"], ["-fwrapv"], ["-fno-strict-aliasing"], ["-fvisibility=hidden"], ["-fno-builtin"], ["-fshort-enums"], ["-D_FORTIFY_SOURCE=2"], ["-fno-inline"],
           ["-fPIC"], ["-fsigned-char"], ["-U_GNU_SOURCE", "-D_XOPEN_SOURCE=700"]]
BASE = ["g++", "-std=c++11", "-O0", "-w"]


def prepare(ctx):
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(5) as pool:
        list(pool.map(build.exe, ["plain"] + list(build.OTHER_BUILDS)))


def partitions(ctx):
    n, k = (16, 8) if ctx.quick else (120, 32)
    return list(range(n)) + ["cli%d" % i for i in range(k)]


def names(s):
    out = set(s.package.split("."))
    for m in s.messages:
        out.add(m.name)
        out.update(f.name for f in m.fields)
    return out


def commands(ctx, part, s):
    src = ctx.src("builds", part)
    standards = STANDARDS[:5] if names(s) & LATER else STANDARDS
    out = [BASE]
    for i in range(3):
        # every option is used in some partition
        k = (part * 3 + i + ctx.seed) % len(OPTIONS)
        cmd = [("g++", "clang++")[(part + i) % 2], standards[(part + 3 * i) % len(standards)], src.pick(LEVELS), "-w"] + OPTIONS[k]
        if src.bool(2, 3):
            cmd += [x for x in src.pick(OPTIONS) if x not in cmd]
        if "-fno-exceptions" in cmd:
            cmd = [x for x in cmd if x != "-D_GLIBCXX_DEBUG"]
        if "-D_FORTIFY_SOURCE=2" in cmd and "-O0" in cmd:
            cmd[cmd.index("-O0")] = "-O2"
        if "-fsigned-char" in cmd and "-funsigned-char" in cmd:
            cmd.remove("-fsigned-char")
        if "-ftrapv" in cmd and "-fwrapv" in cmd:
            cmd.remove("-fwrapv")
        if "-U_GNU_SOURCE" in cmd:
            # the C++ library needs the extensions in later standards
            cmd[1] = "-std=c++11"
        out.append(cmd)
    return out


def driver_for(ctx, part):
    s = arrays.seeded(schema_of(ctx, part, max_msgs=3, max_fields=10, deep=False))
    return Builds(s, commands(ctx, part, s), ext=arrays.ext_code(s))


def maker(ctx, part, drv, tag=""):
    s = drv.s
    ts = arrays.types(s)
    history = c07.maker(ctx, part, drv)

    def make(src):
        if src.bool(1, 4):
            c = history(src)
            return Case(c.ops, lambda res: None, c.nontrivial, c.describe, ["history"])
        if src.bool(1, 4):
            # any bytes
            m = src.pick(s.messages)
            text = damaged(src, s, m)
            source, mode, asc, null = src.draw(5), src.draw(3), src.bool(), src.bool()
            o = Ops(s)
            o.new(m, 0)
            o.des(m, 0, text, source, mode, asc, null)
            o.dump(m, 0)
            o.ser(m, 0, src.draw(3), mode, asc, null)
            return Case(o, lambda res: None, len(text) > 2, {"text": short(text), "parameters": [source, mode, asc, null]}, ["bytes"])
        ops, interesting = c16.work(src, s, ts)
        o = Ops(s)
        for _, _, f in ops:
            f(o)
        return Case(o, lambda res: None, interesting, {"operations": [(a, b) for a, b, _ in ops]}, sorted(set(a for a, _, _ in ops)))
    return make


def damaged(src, s, m):
    """A document, perhaps with some bytes changed; only ASCII in what is not a string."""
    text = bytearray((V.ws(src) + V.render_msg(src, s, m, V.gen_msg(src, m))).encode("utf-8"))
    for _ in range(src.draw(4)):
        i = src.draw(len(text) + 1)
        b = src.pick([src.draw(256), 0xFF, 0x80, 0, 0x7F, 0x1F, 0x20, 0x22, 0x5C])
        k = src.draw(3)
        if k == 0:
            text.insert(i, b)
        elif i < len(text):
            if k == 1:
                text[i] = b
            else:
                del text[i]
    return bytes(text)


def cli_maker(ctx, part, workdir):
    path = os.path.join(workdir, "schema.proto")
    exes = [build.exe()] + [build.exe(k) for k in sorted(build.OTHER_BUILDS)]

    def make(src):
        k = src.draw(4)
        if k == 0:
            text = c11.make_text(src)[1]
        else:
            s = S.gen_schema(src, max_msgs=src.pick([3, 8]), max_fields=src.pick([8, 3]))
            text = raw_text(c10.layout(src, S.tokens(s)) if src.bool() else S.render(s))
            if k == 1 and text:
                text = bytearray(text)
                for _ in range(src.int(1, 3)):
                    text[src.draw(len(text))] = src.pick([src.draw(256), 0xFF, 0x80, 0])
                text = bytes(text)
        name = src.pick(["schema.proto", "sch\u00e9ma.proto", "a b.proto", "\u65e5\u672c"])

        def judge():
            p = os.path.join(workdir, name)
            with open(p, "wb") as f:
                f.write(text)
            res = []
            try:
                for e in exes:
                    r = build.run([e, p])
                    res.append((r.rc, r.out, r.err))
            finally:
                os.unlink(p)
            for x, (kind, (comp, flags)) in zip(res[1:], sorted(build.OTHER_BUILDS.items())):
                if x != res[0]:
                    return "protogen built with %s %s ends with status %d, %d bytes, %s instead of %d, %d, %s" % (
                        comp, flags, x[0], len(x[1]), short(x[2], 200), res[0][0], len(res[0][1]), short(res[0][2], 200))
            return None
        return Plain(repr((text, name)), len(text) > 30, {"name": name, "text": short(text)}, judge, ["compiler"])
    return make


def run_part(ctx, part, st):
    if isinstance(part, str):
        with Work() as w:
            yield from plain_cases(ctx, part, cli_maker(ctx, part, w), 60 if ctx.quick else 400, st)
        return
    with driver_for(ctx, part) as drv:
        for d in drv.drivers[1:]:
            for x in d.kind:
                if x != "-w":
                    st.label("built with " + x)
        yield from check_cases(ctx, part, drv, maker(ctx, part, drv), 300 if ctx.quick else 1500, st)


def replay(ctx, info):
    if isinstance(info["part"], str):
        with Work() as w:
            return cli_maker(ctx, info["part"], w)(Src(replay=info["choices"])).judge()
    return replay_driver(__import__(__name__, fromlist=["x"]), ctx, info)
