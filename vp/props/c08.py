"""C08: every accepted schema yields a self-contained header that compiles, alone and with others."""
import os
import shutil
import subprocess
import tempfile
from .common import *
from .. import build
from ..core import shrink
from ..driver import compile_header, namespace_of

RULE = ("a case is one generated schema whose header is compiled alone as the first include by g++ and by clang++ with every generated operation instantiated, "
        "or a set of two to five headers included in a random order with repetitions in two or three translation units that are linked and run; "
        "non-trivial: at least two fields, or a set; distinct by the text of the schemas")
ASSUMPTIONS = ["'compiles as C++11' means -std=c++11 with the installed g++ and clang++ (libstdc++); clang++ additionally refuses its C++14 and later extensions"]

COMPILERS = [["g++", "-std=c++11", "-w"],
             ["clang++", "-std=c++11", "-w", "-Werror=c++14-extensions", "-Werror=c++17-extensions", "-Werror=c++20-extensions"]]

USE = r"""
#ifndef VP_USE
#define VP_USE
#define VP_STR2(x) #x
#define VP_STR(x) VP_STR2(x)
namespace vp_use {
template<class M, class P> bool text(M &a, P *p)
{
    bool ok = true;
    std::string s;
    std::vector<char> v;
    std::ostringstream os;
    char buf[64] = { 0 };
    ok = a.serialize(s, p) && ok;
    ok = a.serialize(v, p) && ok;
    ok = a.serialize(os, p) && ok;
    a.serialize(buf, sizeof(buf), p);
    M b;
    ok = b.deserialize(s, p) && ok;
    ok = b.deserialize(v, p) && ok;
    ok = b.deserialize(s.data(), s.length(), p) && ok;
    std::istringstream is(s);
    ok = b.deserialize(is, p) && ok;
    return ok && s == std::string(v.begin(), v.end()) && s == os.str() && b == a;
}
template<class M, class P> bool use()
{
    M a;
    const M c(a);
    M d(a);
    M e(std::move(d));
    d = c;
    e = std::move(d);
    P p;
    bool ok = a == c && !(a != c) && a.equal(c) && a.empty() && c.empty();
    e.swap(a);
    ok = text(a, &p) && text(e, (P*) nullptr) && ok;
    std::string s;
    ok = c.serialize(s) && s == "{}" && ok;
    p.serialize_null = p.ensure_ascii = true;
    s.clear();
    ok = c.serialize(s, &p) && ok;
    ok = a.deserialize(s) && a.empty() && ok;
    a.clear();
    std::vector<M> many(2);
    many.push_back(a);
    std::list<M> other(many.begin(), many.end());
    return ok && many.size() == 3 && other.size() == 3;
}
template<class M, class P> bool arrays(M*)
{
    std::vector<M> v(2);
    std::list<M> l;
    std::string s;
    std::vector<char> c;
    P p;
    bool ok = serialize_array(v, s) && serialize_array(l, c, &p) && serialize_array(v, c);
    ok = deserialize_array(l, s) && deserialize_array(v, s.data(), s.length(), &p) && deserialize_array(l, std::vector<char>(s.begin(), s.end())) && ok;
    return ok && v.size() == 4 && l.size() == 4;
}
}
#endif
"""


class Spec:
    """Headers to generate (file names and schemas) and the translation units that include them."""

    def __init__(self):
        self.files = []     # (path of the proto, schema)
        self.units = []     # lists of indices
        self.hostile = False    # names the compiler may refuse

    def key(self):
        return "\0".join("%s\0%s" % (p, S.render(s)) for p, s in self.files) + repr(self.units)

    def describe(self):
        return {"hostile names": self.hostile, "files": [{"name": p, "schema": S.render(s)} for p, s in self.files], "units": self.units}


BASES = ["a", "a_b", "a-b", "a.b", "a b", "A", "model", "model.pg", "x/y", "x_y", "x/y/z", "日本", "a__b", "a_", "_a", "0", "a+b", "a%b", "1a", "z" * 60, "a'b", "q?b", "back\\slash", "per%s", "$1$",
         "end\\", "com*/ment", "com/*ment", "tri??/graph", "a(b)", "a,b", "#a", "tab\tb", "nl\nb"]


def gen_one(src, avoid=(), package=None):
    k = src.draw(4)
    types = None
    if k == 1:
        types = src.shuffle(S.SCALARS)[:src.int(1, 3)]
    elif k == 2:
        types = [src.pick(S.SCALARS)]
    s = S.gen_schema(src, max_msgs=src.pick([5, 1, 3]), max_fields=src.pick([8, 1, 2]), types=types, refs=src.bool(2, 3), hidden=True, wide=src.bool(1, 12), deep=src.bool(1, 24), avoid=avoid, package=package)
    if src.bool(1, 12):
        # all transient
        for _, f in s.fields():
            f.transient = True
    if src.bool(1, 3):
        # no or only repeated fields of some kind
        rep = src.pick(["repeated", ""])
        for _, f in s.fields():
            f.label = rep
    if src.bool(1, 25) and not avoid:
        s.messages = []
    return s


def rename(src, sp):
    """Names that C++ or the generated code uses: the compiler either refuses them or handles them."""
    s = sp.files[0][1]
    sp.hostile = True
    for _ in range(src.int(1, 2)):
        k = src.draw(4)
        if k == 0 and s.messages:
            m = src.pick(s.messages)
            n = src.pick(s.messages).name + "_type"
        elif s.messages:
            m = src.pick(s.messages)
            n = src.pick(HOSTILE)
        else:
            return
        if k < 3:
            if all(x.name != n for x in s.messages):
                m.name = n
        elif m.fields:
            f = src.pick(m.fields)
            n = src.pick([n, m.name, m.name + "_type"])
            if all(x.name != n for x in m.fields):
                f.name = n
    if src.bool(1, 6) and s.package:
        s.package += "." + src.pick(HOSTILE)


HOSTILE = sorted(S.CPP_KEYWORDS | S.HIDDEN_NAMES | set(["final", "override", "import", "module", "co_await", "concept", "requires", "char8_t", "main"]))


def make_spec(src, multi):
    sp = Spec()
    if not multi:
        sp.files.append((src.pick(BASES) + ".proto", gen_one(src)))
        if src.bool(1, 3):
            rename(src, sp)
        return sp
    n = src.int(2, 5)
    names = set()
    taken = {}
    for i in range(n):
        base = None
        while base is None or base in names:
            base = src.pick(BASES) if src.bool(5, 6) else src.pick(BASES) + str(i)
        names.add(base)
        package = None
        if i and src.bool(1, 2):
            # the package of an earlier file
            package = sp.files[src.draw(i)][1].package
        s = None
        for _ in range(6):
            # names that earlier files of the same package declare can not be used again
            s = gen_one(src, (), package) if package is None else gen_one(src, taken.get(package, ()), package)
            mine = set(m.name for m in s.messages) | set(m.name + "_type" for m in s.messages)
            if mine & taken.get(s.package, set()) or clash(s, sp):
                s = None
                continue
            break
        if s is None:
            continue
        taken.setdefault(s.package, set()).update(mine)
        sp.files.append((base + ".proto", s))
    n = len(sp.files)
    for _ in range(src.int(2, 3)):
        order = src.shuffle(range(n))
        if src.bool():
            order = order[:src.int(1, n)]
        for _ in range(src.draw(3)):
            order.insert(src.draw(len(order) + 1), src.draw(n))
        sp.units.append(order)
    return sp


def clash(s, sp):
    """A namespace of one schema has the qualified name of a message of another."""
    def spaces(x):
        parts = x.package.split(".") if x.package else []
        return set(".".join(parts[:i]) for i in range(1, len(parts) + 1))

    def classes(x):
        return set((x.package + "." if x.package else "") + m.name for m in x.messages)
    return any(spaces(s) & classes(o) or spaces(o) & classes(s) for _, o in sp.files)


def errors(out):
    t = out.decode(errors="replace").splitlines()
    return "\n".join([l for l in t if "error" in l or "undefined reference" in l or "multiple definition" in l][:4] or t[:4])


def uses(s, ns):
    out = []
    rep = any(f.repeated for _, f in s.fields())
    for m in s.messages:
        t = s.cpp(m)
        out.append("    ok = vp_use::use< %s, ::%s::Parameters >() && ok;" % (t, ns))
        if rep:
            out.append("    { using namespace ::%s; ok = vp_use::arrays< %s, ::%s::Parameters >((%s*) nullptr) && ok; }" % (ns, t, ns, t))
    return "\n".join(out)


def judge(sp, st=None):
    """None or a message."""
    work = tempfile.mkdtemp(prefix="vp-drv-")
    try:
        heads, spaces = [], []
        for i, (path, s) in enumerate(sp.files):
            p = os.path.join(work, "protos", path)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w", encoding="utf-8") as f:
                f.write(S.render(s))
            dst = os.path.join(work, "h%d.hh" % i)
            r = build.run([build.exe(), p, dst], timeout=60)
            if sp.hostile and r.rc == 1 and r.err:
                if st:
                    st.label("refused name")
                return None
            if r.timeout or r.rc != 0:
                return "protogen does not accept a valid schema: " + r.err.decode(errors="replace")[:300]
            heads.append(dst)
            spaces.append(namespace_of(dst))
        if not sp.units:
            path, s = sp.files[0]
            with open(os.path.join(work, "t.cc"), "w", encoding="utf-8") as f:
                f.write('#include "h0.hh"\n' + USE + "bool vp_all()\n{\n    bool ok = true;\n" + uses(s, spaces[0]) + "\n    return ok;\n}\n")
            for c in COMPILERS:
                r = subprocess.run(c + ["-fsyntax-only", "t.cc"], cwd=work, env=build.ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
                if st:
                    st.label("compiled by " + c[0])
                if r.returncode:
                    return "the header does not compile with %s as the first include:\n%s" % (c[0], errors(r.stdout))
            return None
        objs = []
        for u, order in enumerate(sp.units):
            with open(os.path.join(work, "u%d.cc" % u), "w", encoding="utf-8") as f:
                for i in order:
                    f.write('#include "h%d.hh"\n' % i)
                f.write(USE + "bool vp_unit%d()\n{\n    bool ok = true;\n" % u)
                for i in sorted(set(order)):
                    f.write(uses(sp.files[i][1], spaces[i]) + "\n")
                f.write("    return ok;\n}\n")
            c = COMPILERS[(u + len(sp.files)) % 2]
            r = subprocess.run(c + ["-O0", "-c", "u%d.cc" % u, "-o", "u%d.o" % u], cwd=work, env=build.ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
            if st:
                st.label("unit compiled by " + c[0])
            if r.returncode:
                return "headers do not compile together with %s in the order %r:\n%s" % (c[0], order, errors(r.stdout))
            objs.append("u%d.o" % u)
        with open(os.path.join(work, "main.cc"), "w") as f:
            for u in range(len(sp.units)):
                f.write("bool vp_unit%d();\n" % u)
            f.write("int main() { return (%s) ? 0 : 42; }\n" % " && ".join("vp_unit%d()" % u for u in range(len(sp.units))))
        r = subprocess.run(["g++", "-std=c++11", "-w", "main.cc"] + objs + ["-o", "prog"], cwd=work, env=build.ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
        if r.returncode:
            return "translation units that include the headers do not link:\n%s" % errors(r.stdout)
        r = build.run([os.path.join(work, "prog")], cwd=work, timeout=60)
        if r.rc:
            return "the operations on empty objects of linked headers fail (exit status %d)" % r.rc
        return None
    finally:
        shutil.rmtree(work, ignore_errors=True)


def partitions(ctx):
    return ["names%d" % i for i in range(16)] + ["files%d" % i for i in range(3 if ctx.quick else 24)] + list(range(40 if ctx.quick else 500))


def similar_names(src, part):
    """File names (bytes) that differ as little as possible."""
    if part == 0:
        # one character, any byte
        return [b"f" + bytes([c]) + b"g.proto" for c in range(1, 256) if c != 0x2F]
    out = set()
    long = src.pick([b"", b"x" * 40, b"directory_name/" * 3, b"n" * 200])
    alphabet = src.pick([b"_2DdAa-.5F", b"_ABab/", b"_0123456789ABCDEF-", b"_/-. "])
    while len(out) < 120:
        body = bytes(src.pick(alphabet) for _ in range(src.int(1, 6)))
        name = b"/".join((b"p" if x in (b"", b".", b"..") else x) for x in body.split(b"/"))
        name = long + name if src.bool(3, 4) else name + long.replace(b"/", b"_")
        out.add(name + src.pick([b".proto", b"", b".Proto", b".pb"]))
    # a name can not be a directory of other one
    return sorted(n for n in out if not any(o.startswith(n + b"/") for o in out))


def judge_names(names, st=None):
    """Headers of files with these names, all of them in one translation unit."""
    work = tempfile.mkdtemp(prefix="vp-drv-")
    try:
        top = os.path.join(work, "protos").encode()
        lines, uses = [], []
        for i, n in enumerate(names):
            p = os.path.join(top, n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w") as f:
                f.write('syntax = "proto3"; package p%d; message M { int32 a = 1; }' % i)
            r = build.run([build.exe(), p, os.path.join(work, "h%d.hh" % i)], timeout=60)
            if r.timeout or r.rc != 0:
                return "protogen does not accept the file %r: %s" % (n, r.err.decode(errors="replace")[:300])
            lines.append('#include "h%d.hh"' % i)
            uses.append("p%d::M m%d;" % (i, i))
        with open(os.path.join(work, "t.cc"), "w") as f:
            f.write("\n".join(lines + uses) + "\n")
        for c in COMPILERS:
            r = subprocess.run(c + ["-fsyntax-only", "t.cc"], cwd=work, env=build.ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
            if r.returncode:
                return "headers of files with similar names do not compile together with %s:\n%s" % (c[0], errors(r.stdout))
            if st:
                st.label("similar names compiled by " + c[0])
        return None
    finally:
        shutil.rmtree(work, ignore_errors=True)


def files_part(ctx, part, st):
    names = similar_names(ctx.src("files", part), part)
    why = judge_names(names, st)
    for n in names:
        st.count("file " + repr(n), len(names) > 1)
    st.label("file names", len(names))
    if why is None:
        return
    last = [names, why]

    def reduce(todo):
        # smaller sets first, as in delta debugging
        k = max(1, len(todo) // 2)
        for _ in range(200):
            for i in range(0, len(todo), k):
                rest = todo[:i] + todo[i + k:]
                w = judge_names(rest) if rest else None
                if w is not None:
                    last[0], last[1] = rest, w
                    todo = rest
                    break
            else:
                if k == 1:
                    return
                k = max(1, k // 2)
            k = min(k, max(1, len(todo) // 2))
    reduce(names)
    yield Violation(last[1], {"file names": [n.hex() for n in last[0]], "text": [repr(n) for n in last[0]]})


def place(name, where):
    """A schema with this name for a package, a message or a field."""
    s = S.Schema()
    s.package = {"package": name, "inner": "a." + name + ".b"}.get(where, "pkg")
    a = S.Message(name if where == "message" else "Aa")
    a.fields.append(S.Field("", "string", name if where == "field" else "x", 1))
    a.fields.append(S.Field("repeated", "int32", name + "_" if where == "field" else "y", 2))
    b = S.Message(name + "_type" if where == "model" else "Bb")
    if where in ("model", "message"):
        b.fields.append(S.Field("repeated", "message", a.name, 7, a))
    else:
        b.fields.append(S.Field("", "message", "value", 7, a))
    s.messages = [a, b]
    sp = Spec()
    sp.files.append(("a.proto", s))
    sp.hostile = True
    return sp


def run_part(ctx, part, st):
    if isinstance(part, str) and part.startswith("files"):
        yield from files_part(ctx, int(part[5:]), st)
        return
    if isinstance(part, str):
        todo = [(n, w) for n in HOSTILE + ["Aa", "x", "std", "string", "vector", "json", "Parameters", "int32_t", "size_t", "value"] for w in ("package", "inner", "message", "field", "model")
                if not (w == "package" and n in ("std", "size_t", "int32_t"))]
        for n, w in todo[int(part[5:])::16]:
            sp = place(n, w)
            why = judge(sp, st)
            st.count(sp.key(), True)
            st.label("name of a " + w)
            if why is not None:
                yield Violation(why, {"name": n, "where": w, **sp.describe()})
        return
    for i in range(2):
        multi = (part + i) % 2 == 1
        src = ctx.src("case", part, i)
        sp = make_spec(src, multi)
        why = judge(sp, st)
        st.count(sp.key(), multi or sum(1 for _ in sp.files[0][1].fields()) >= 2)
        st.label("set of %d headers" % len(sp.files) if multi else "single header")
        if why is None:
            if part % 8 == 0:
                st.sample(sp.describe(), 1)
            continue
        last = [sp, why]

        def fails(ch):
            q = Src(replay=ch)
            x = make_spec(q, multi)
            if not x.files:
                return None
            w = judge(x)
            if w is None:
                return None
            last[0], last[1] = x, w
            return q.rec
        best = shrink(src.rec, fails, max_evals=120, max_seconds=60)
        fails(best)
        yield Violation(last[1], {"part": part, "choices": list(best), "multi": multi, **last[0].describe()})


def replay(ctx, info):
    if "file names" in info:
        return judge_names([bytes.fromhex(n) for n in info["file names"]])
    if "where" in info:
        return judge(place(info["name"], info["where"]))
    sp = make_spec(Src(replay=info["choices"]), info["multi"])
    return judge(sp)
