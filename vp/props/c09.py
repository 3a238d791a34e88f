"""C09: generated fields have the documented C++ types."""
from .common import *
from .. import build
from ..driver import compile_header, namespace_of, expected_type
import os
import shutil
import subprocess
import tempfile

RULE = ("a case is one field of a generated schema whose declared type is compared with the documented type at compile time (g++ or clang++), and for numeric kinds "
        "one extreme value stored in it at run time; non-trivial: every case; distinct by schema options, package, label, type and compiler")
ASSUMPTIONS = ["for repeated bytes with cpp_use_lists the README can be read both ways: a std::list or a std::vector of byte vectors is accepted"]

def schemas(ctx, part):
    """Several schemas with different options and packages; every scalar type is declared somewhere in each."""
    src = ctx.src("schema", part)
    out = []
    for k in range(3):
        package = "%s.q%d" % (src.pick(["a", "top.b1", "Upper.x.y.z", "p", "types.options"]), k)
        if k == 1 and part % 3 == 0:
            package = ""
        s = S.gen_schema(src, max_msgs=4, max_fields=8, package=package, wide=src.bool(1, 5))
        n = 0
        # every combination of label and type, in a message of its own that may be declared before what it refers to
        for label in ("", "optional", "repeated"):
            m = S.Message("All%s%d" % (label.capitalize() or "Plain", k))
            used = set()
            for t in src.shuffle(S.SCALARS):
                m.fields.append(S.Field(label, t, S.field_name(src, used), S.field_number(src, set(f.number for f in m.fields))))
                if src.bool(1, 8):
                    m.fields[-1].transient = True
                if src.bool(1, 8):
                    m.fields[-1].json_name = "n%d" % n
                n += 1
            for r in [x for x in s.messages if x.name not in S.PROTO_KEYWORDS][:3]:
                f = S.Field(label, "message", S.field_name(src, used), S.field_number(src, set(f.number for f in m.fields)), r)
                f.qualify = src.bool(1, 3)
                m.fields.append(f)
            s.messages.insert(src.draw(len(s.messages) + 1), m)
        s.use_lists = [None, True, False][(part + k) % 3]
        out.append(s)
    return out


def code(ss, heads, nss):
    out = ['#include "%s"' % h for h in heads] + ["#include <type_traits>", "#include <limits>", "#include <stdio.h>", "int main()\n{", "    int n = 0;"]
    index = []
    for s, ns in zip(ss, nss):
        for m, f in s.fields():
            alts = [expected_type(s, f, "::" + ns)]
            if f.kind == "bytes" and f.repeated and s.use_lists:
                alts.append(expected_type(s, f, "::" + ns, False))
            cond = " || ".join("std::is_same<decltype(%s::%s), %s >::value" % (s.cpp(m), f.name, t) for t in alts)
            out.append('    if (!(%s)) printf("%%d type\\n", n);' % cond)
            if f.kind in ("int", "double", "float", "bool"):
                t = S.CPP[f.type]
                set_ = "o.%s.push_back(x); bool same = o.%s.back() == x;" % (f.name, f.name) if f.repeated else "o.%s = x; bool same = o.%s == x && (%s) o.%s == x;" % (f.name, f.name, t, f.name)
                out.append('    { const %s xs[] = { std::numeric_limits<%s>::max(), std::numeric_limits<%s>::lowest() }; for (auto x : xs) { %s o; %s if (!same) printf("%%d range\\n", n); } }'
                           % (t, t, t, s.cpp(m), set_))
            out.append("    ++n;")
            index.append((s, m, f, alts[0]))
    out.append('    printf("%d done\\n", n);\n    return 0;\n}')
    return "\n".join(out), index


def partitions(ctx):
    return list(range(12 if ctx.quick else 120))


def run_part(ctx, part, st):
    ss = schemas(ctx, part)
    work = tempfile.mkdtemp(prefix="vp-drv-")
    try:
        heads = [compile_header(S.render(s), "f%d" % i, work) for i, s in enumerate(ss)]
        nss = [namespace_of(h) for h in heads]
        text, index = code(ss, [os.path.basename(h) for h in heads], nss)
        with open(os.path.join(work, "t.cc"), "w") as f:
            f.write(text)
        cc = ["g++", "clang++"][part % 2]
        r = subprocess.run([cc, "-std=c++11", "-O0", "-w", "t.cc", "-o", "t"], cwd=work, env=build.ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            err = [l for l in r.stdout.decode(errors="replace").splitlines() if "error" in l][:6]
            # a wrong type also shows up as an operation that does not compile
            yield Violation("the fields of the generated classes can not be used as their documented types: " + "\n".join(err), {"part": part, "schemas": [S.render(s) for s in ss]})
            return
        r = build.run([os.path.join(work, "t")], cwd=work)
        lines = r.out.decode().split("\n")
        if r.rc or not lines or "%d done" % len(index) not in lines:
            raise RuntimeError("the type program fails: %d %r" % (r.rc, lines[-3:]))
        for s, m, f, t in index:
            st.count("|".join([str(s.use_lists), str(s.obfuscate), str(s.number_names), s.package, f.label, f.type, str(f.transient), f.name, cc]), True)
            st.label("%s %s" % (f.label or "singular", "lists" if s.use_lists else "vectors"))
        st.sample({"schema": S.render(ss[0])[:600], "field": f.name, "type": t}, 1)
        bad = [l for l in lines if l.endswith((" type", " range"))]
        if bad:
            i, what = bad[0].split()
            s, m, f, t = index[int(i)]
            decl = " ".join(S.field_tokens(s, f))
            yield Violation("field '%s' of '%s' (cpp_use_lists %s) %s" % (decl, s.cpp(m), s.use_lists, "does not have the type " + t if what == "type" else "does not hold the extreme values of its type"),
                            {"part": part, "field": decl, "expected": t, "schema": S.render(s), "all": len(bad)})
    finally:
        shutil.rmtree(work, ignore_errors=True)
