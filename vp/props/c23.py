"""C23: headers made by different versions of the compiler work together in one program."""
import copy
import json
import os
import shutil
import subprocess
import tempfile
from .common import *
from .. import build
from ..core import shrink
from ..driver import namespace_of
from . import c08

RULE = ("a case is one schema whose header is generated by two or three versions of protogen (other version numbers, other texts in the messages of the runtime) for two or three packages, included in a "
        "random order in two translation units that are linked, and a set of texts (valid and damaged) that each of the classes reads and writes back; non-trivial: the versions differ and a text is not {}; "
        "distinct by schema, versions, order and texts")
ASSUMPTIONS = ["another release is simulated by this tree with other version numbers and other texts of error messages",
               "the versions of one program differ; headers of one version together are C08"]
VERSIONS = [None, (3, 0, 1), (12, 34, 5)]
COMPILERS = [["g++", "-std=c++11", "-w", "-O0"], ["clang++", "-std=c++11", "-w", "-O0"]]

RUN = r"""
#ifndef VP_RUN
#define VP_RUN
#include <cstdio>
namespace vp_run {
inline void put(const std::string &s) { printf("%zu:", s.length()); fwrite(s.data(), 1, s.length(), stdout); printf("\n"); }
template<class M, class P> void one(const std::string &text)
{
    M a, b;
    P p;
    bool ok = a.deserialize(text, &p);
    printf("%d %d %d:%d ", ok, (int) p.error.code, p.error.line, p.error.column);
    put(p.error.message);
    if (!ok) return;
    for (int i = 0; i < 4; ++i)
    {
        std::string s;
        p.ensure_ascii = (i & 1) != 0;
        p.serialize_null = (i & 2) != 0;
        ok = a.serialize(s, &p);
        put(s);
        printf("%d %d ", ok, (int) p.error.code);
        if (!ok) { put(p.error.message); continue; }
        b.clear();
        ok = b.deserialize(s, &p);
        printf("%d %d\n", ok, ok ? a == b : 0);
    }
    M c(a);
    b.swap(c);
    printf("%d %d\n", b == a, c.empty());
}
}
#endif
"""


def exes():
    return [build.exe() if v is None else build.other_version(v) for v in VERSIONS]


def prepare(ctx):
    exes()


def partitions(ctx):
    return list(range(24 if ctx.quick else 240))


def cstring(b):
    return "std::string(\"%s\", %d)" % ("".join("\\%03o" % x for x in b), len(b))


class Spec:
    pass


def make(src):
    sp = Spec()
    sp.s = s = S.gen_schema(src, max_msgs=src.pick([3, 1]), max_fields=src.pick([8, 2]), types=src.shuffle(S.SCALARS)[:src.int(1, 3)] if src.bool(1, 3) else None)
    n = src.pick([2, 2, 3])
    sp.versions = src.shuffle(range(len(VERSIONS)))[:n]
    base = src.pick(["", "p", "p.q"])
    sp.packages = [("pk%d" % i if not base else base + ".pk%d" % i) for i in range(n)]
    sp.units = [src.shuffle(range(n)), src.shuffle(range(n))]
    if src.bool(1, 3):
        sp.units[1] = sp.units[1][:src.int(1, n - 1)]
    sp.flip = src.draw(2)
    sp.texts = []
    for i, m in enumerate(s.messages):
        for _ in range(4):
            v = V.drop_transient(m, V.gen_msg(src, m))
            t = (V.ws(src) + V.render_msg(src, s, m, v) + V.ws(src)).encode("utf-8")
            k = src.draw(4)
            if k == 1:
                t = t[:src.draw(len(t) + 1)]
            elif k == 2:
                j = src.draw(len(t) + 1)
                t = t[:j] + src.pick([b"x", b"\"", b"}", b"[", b"1", b"null", b",", b":", b"\xff"]) + t[j + src.draw(2):]
            elif k == 3:
                # a value of the wrong type
                f = src.pick(m.fields) if m.fields else None
                t = ("{%s:%s}" % (json.dumps(s.jname(f)) if f else '"a"', src.pick(["{}", "[]", "true", "1", '"x"', "[[]]", "1e999", "null", "-1", "0.5"]))).encode("utf-8")
            sp.texts.append((i, t))
    return sp


def describe(sp):
    return {"schema": S.render(sp.s), "versions": [VERSIONS[v] for v in sp.versions], "packages": sp.packages, "units": sp.units, "texts": [short(t, 100) for _, t in sp.texts]}


def judge(sp, st=None):
    work = tempfile.mkdtemp(prefix="vp-drv-")
    try:
        tools = exes()
        spaces, schemas = [], []
        n = len(sp.versions)
        for i in range(n):
            s = copy.deepcopy(sp.s)
            s.package = sp.packages[i]
            schemas.append(s)
            p = os.path.join(work, "s%d.proto" % i)
            with open(p, "w", encoding="utf-8") as f:
                f.write(S.render(s))
            h = os.path.join(work, "h%d.hh" % i)
            r = build.run([tools[sp.versions[i]], p, h], timeout=60)
            if r.timeout or r.rc != 0:
                return "protogen does not accept a valid schema: " + r.err.decode(errors="replace")[:300]
            spaces.append(namespace_of(h))
        if len(set(spaces)) < n:
            return "different versions use the same namespace: %s" % ", ".join(spaces)

        def calls(i):
            return "".join("    vp_run::one< %s, ::%s::Parameters >(%s);\n" % (schemas[i].cpp(schemas[i].messages[k]), spaces[i], cstring(t)) for k, t in sp.texts)

        def compile(cmd, what):
            r = subprocess.run(cmd, cwd=work, env=build.ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
            return "%s:\n%s" % (what, c08.errors(r.stdout)) if r.returncode else None
        alone = []
        for i in range(n):
            with open(os.path.join(work, "a%d.cc" % i), "w") as f:
                f.write('#include "h%d.hh"\n%sint main()\n{\n%s    return 0;\n}\n' % (i, RUN, calls(i)))
            why = compile(COMPILERS[sp.flip] + ["a%d.cc" % i, "-o", "a%d" % i], "the header of version %s does not compile" % (VERSIONS[sp.versions[i]],))
            if why:
                return why
            r = build.run([os.path.join(work, "a%d" % i)], timeout=60)
            if r.rc:
                return "a program with the header of version %s ends with status %d" % (VERSIONS[sp.versions[i]], r.rc)
            alone.append(r.out)
        for i in range(1, n):
            if alone[i].lower() != alone[0].lower():
                return "version %s gives %s and version %s gives %s" % (VERSIONS[sp.versions[0]], short(alone[0]), VERSIONS[sp.versions[i]], short(alone[i]))
        objs = []
        for u, order in enumerate(sp.units):
            with open(os.path.join(work, "u%d.cc" % u), "w") as f:
                f.write("".join('#include "h%d.hh"\n' % i for i in order) + RUN)
                for i in order:
                    f.write("void vp_%d_%d()\n{\n%s}\n" % (u, i, calls(i)))
            why = compile(COMPILERS[(u + sp.flip) % 2] + ["-c", "u%d.cc" % u, "-o", "u%d.o" % u], "headers of the versions %s do not compile together" % [VERSIONS[sp.versions[i]] for i in order])
            if why:
                return why
            objs.append("u%d.o" % u)
        with open(os.path.join(work, "main.cc"), "w") as f:
            f.write("#include <cstdlib>\n" + "".join("void vp_%d_%d();\n" % (u, i) for u, o in enumerate(sp.units) for i in o))
            f.write("int main(int, char **argv)\n{\n    switch (atoi(argv[1]))\n    {\n" + "".join("        case %d: vp_%d_%d(); break;\n" % (u * 10 + i, u, i) for u, o in enumerate(sp.units) for i in o) + "    }\n    return 0;\n}\n")
        if sp.flip:
            objs.reverse()
        why = compile(["g++", "-std=c++11", "-w", "main.cc"] + objs + ["-o", "prog"], "units with headers of several versions do not link")
        if why:
            return why
        for u, o in enumerate(sp.units):
            for i in o:
                r = build.run([os.path.join(work, "prog"), str(u * 10 + i)], timeout=60)
                if r.rc or r.out != alone[i]:
                    return "the classes of version %s give %s (status %d) in a program with other versions and %s alone" % (VERSIONS[sp.versions[i]], short(r.out), r.rc, short(alone[i]))
        if st:
            st.label("%d versions" % n)
            st.label("accepted texts", sum(x.startswith(b"1 ") for x in alone[0].split(b"\n")))
        return None
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run_part(ctx, part, st):
    for i in range(2):
        src = ctx.src("case", part, i)
        sp = make(src)
        why = judge(sp, st)
        st.count(repr(describe(sp)), any(t.strip() != b"{}" for _, t in sp.texts))
        if why is None:
            if part % 6 == 0:
                st.sample(describe(sp), 1)
            continue
        last = [sp, why]

        def fails(ch):
            q = Src(replay=ch)
            x = make(q)
            w = judge(x)
            if w is None:
                return None
            last[0], last[1] = x, w
            return q.rec
        best = shrink(src.rec, fails, max_evals=60, max_seconds=60)
        fails(best)
        yield Violation(last[1], {"part": part, "choices": list(best), **describe(last[0])})
        return


def replay(ctx, info):
    return judge(make(Src(replay=info["choices"])))
