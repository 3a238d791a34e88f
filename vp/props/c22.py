"""C22: the template tool embeds the runtime and the code templates exactly."""
import os
import re
import subprocess
from .common import *
from .. import build

RULE = ("a case is one generated runtime header or template file processed by the template tool of the build; the file it writes is compiled and the constants compared with the text; "
        "non-trivial: some line has a quote, a backslash, a version mark, the removal mark or bytes beyond ASCII, or the run must fail; distinct by content, kind and fault")
ASSUMPTIONS = ["the text has neither NUL characters nor carriage returns nor trigraphs; every block of a template file is closed; blank lines at the end of a constant do not matter"]

PIECES = ["", "int x;", "\"", "\\", "\\n", "\\\"", "\"\\\"", "'", "#include <string>", "#define A(x) #x \\", "_X_Y_Z", "protogen_X_Y_Z::field", "PG_X_Y_Z_ENTITY", "_X_Y_X_Y_Z", "_X_Y_", "_X_Y_Z_X_Y_Z", "_x_y_z",
          "//", "/* c", "*/", "\t", "    ", " ", "%s", "%", "$1$", "$", "$$", "?", "a?b:c", "é", "日本", "😀", "\udcff", "\x01", "\x7f", "\f", "\v", "AUTO-REMOVE", "#", "--- A", "------", "---", "-- A",
          "R\"(x)\"", "u8\"x\"", "\\u0041", "\\x41", "\\101", "\\\\", "8", "0x", "{", "}", "<::", "%:", "x" * 70, "\"a\" \"b\"", "\\\t", "GENERATED__a_hh"]


def line(src):
    k = src.draw(12)
    if k == 0:
        return ""
    if k == 1:
        return src.pick(["#include \"json.hh\" // AUTO-REMOVE", "#AUTO-REMOVE", "#pragma once // AUTO-REMOVE again AUTO-REMOVE", " #include <x> // AUTO-REMOVE", "// AUTO-REMOVE", "# AUTO-REMOV", "#auto-remove"])
    if k == 2:
        return src.pick(PIECES) * src.pick([1, 2, 3, 200])
    return "".join(src.pick(PIECES) for _ in range(1 + src.size(2, 8)))


def naming():
    with open(os.path.join(build.protogen(targets=("template",)), "__include", "cmake.hh"), encoding="utf-8") as f:
        return re.search(r'PROTOGEN_VERSION_NAMING\s+"(.*)"', f.read()).group(1)


def hard(text):
    return any(x in text for x in ('"', "\\", "_X_Y_Z", "AUTO-REMOVE")) or any(ord(c) > 126 for c in text)


def values(work, generated, names):
    """Text of the constants, as the compiler sees them. Returns (dictionary, error)."""
    code = '#include "%s"\n#include "%s"\nextern "C" long write(int, const void *, unsigned long);\ntemplate<unsigned long N> static void put(const char (&t)[N])\n{\n    unsigned long n = N - 1;\n    write(1, &n, sizeof(n));\n    for (unsigned long i = 0; i < n;) i += (unsigned long) write(1, t + i, n - i);\n}\nint main()\n{\n' % (generated, generated)
    code += "".join('    put("" %s);\n' % x for x in names) + "    return 0;\n}\n"
    path = os.path.join(work, "t.cc")
    with open(path, "w") as f:
        f.write(code)
    r = build.run(["g++", "-std=c++11", "-w", "-O0", path, "-o", path + ".exe"], timeout=60)
    if r.rc:
        return None, "the file does not compile: " + r.err.decode(errors="replace")[:300]
    r = build.run([path + ".exe"])
    out, pos = {}, 0
    for x in names:
        n = int.from_bytes(r.out[pos:pos + 8], "little")
        out[x] = r.out[pos + 8:pos + 8 + n]
        pos += 8 + n
    return out, None


def partitions(ctx):
    return list(range(16 if ctx.quick else 96))


def tool():
    return os.path.join(build.protogen(targets=("template",)), "template")


def prepare(ctx):
    tool()


def maker(ctx, part, top):
    exe = tool()
    version = naming()
    seq = [0]

    def make(src):
        header = src.bool()
        fault = src.weighted([(40, None), (1, "missing"), (1, "no directory"), (1, "full"), (1, "directory"), (1, "few arguments"), (1, "many arguments")])
        newline = src.bool(3, 4)
        name = src.pick(["a.hh", "json-x.hh", "x64.hh", "a.b.hh"]) if header else src.pick(["code.txt", "x.tmpl", "a.hh.txt", "codehh", "hh", "a.hhh", "a.HH", "a.hh_"])
        lines, want = [], {}
        if header:
            lines = [line(src) for _ in range(src.size(6, 60))]
            kept = [x for x in lines if not (x.startswith("#") and "AUTO-REMOVE" in x)]
            want["GENERATED__" + re.sub("[^A-Za-z]", "_", name)] = "".join(x.replace("_X_Y_Z", version) + "\n" for x in kept)
        else:
            for i in range(src.size(3, 8)):
                for _ in range(src.size(0.7, 4)):
                    x = line(src)
                    lines.append("" if x.startswith("--- ") else x)
                block = "CODE_%s_%d" % (src.pick(["A", "JSON__X", "Z9"]), i)
                lines.append("--- " + block)
                body = []
                for _ in range(src.size(4, 20)):
                    x = line(src)
                    body.append("" if x.startswith("------") else x)
                lines += body + [src.pick(["------", "-------", "------ end"])]
                want[block] = "".join(x + "\n" for x in body)
            for _ in range(src.size(0.5, 3)):
                x = line(src)
                lines.append("" if x.startswith("--- ") else x)
        text = "\n".join(lines) + ("\n" if newline and lines else "")
        text = re.sub(r"\?\?+", "?", text)
        want = {k: raw_text(re.sub(r"\?\?+", "?", v)) for k, v in want.items()}
        data = raw_text(text)
        old = src.bool(1, 3)
        describe = {"file": name, "text": short(text, 500), "fault": fault}

        def judge():
            seq[0] += 1
            work = os.path.join(top, "w%d" % seq[0])
            os.mkdir(work)
            try:
                return run(work)
            finally:
                import shutil
                shutil.rmtree(work)

        def run(work):
            path, out = os.path.join(work, name), os.path.join(work, "auto.hh")
            if fault != "missing":
                with open(path, "wb") as f:
                    f.write(data)
            if fault == "no directory":
                out = os.path.join(work, "none", "auto.hh")
            elif fault == "directory":
                os.mkdir(out)
            elif fault == "full":
                out = "/dev/full"
            elif old:
                with open(out, "wb") as f:
                    f.write(b"#error old\n" * 4000)
            args = {"few arguments": [path], "many arguments": [path, out, "x"]}.get(fault, [path, out])
            r = build.run([exe] + args, cwd=work)
            if r.timeout or r.rc < 0:
                return "the template tool %s" % ("hangs" if r.timeout else "is killed by signal %d" % -r.rc)
            if fault is not None:
                return None if r.rc else "the template tool ends with success although the run can not succeed (%s)" % fault
            if r.rc:
                return "the template tool ends with status %d for a valid file" % r.rc
            got, why = values(work, out, list(want))
            if why:
                return why
            for k in want:
                if got[k].rstrip(b"\n") != want[k].rstrip(b"\n"):
                    return "the constant %s is %s instead of %s" % (k, short(got[k], 200), short(want[k], 200))
            with open(out, "rb") as f:
                first = f.read()
            build.run([exe] + args, cwd=work)
            with open(out, "rb") as f:
                if f.read() != first:
                    return "running the tool again gives another result"
            return None
        return Plain(repr((text, name, fault)), hard(text) or fault is not None, describe, judge, ["header" if header else "templates", "fault: %s" % fault])
    return make


def run_part(ctx, part, st):
    with Work() as top:
        yield from plain_cases(ctx, part, maker(ctx, part, top), 90 if ctx.quick else 800, st)


def replay(ctx, info):
    with Work() as top:
        return maker(ctx, info["part"], top)(Src(replay=info["choices"])).judge()
