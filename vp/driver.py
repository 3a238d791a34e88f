"""Generates, compiles and runs the driver program of one schema."""
import os
import re
import shutil
import struct
import subprocess
import tempfile

from . import build, schema as S, values as V
from .core import Violation, VERIF

HARNESS = os.path.join(VERIF, "harness")


class Crash:
    """The driver died or hung while executing one case."""

    def __init__(self, why, err):
        self.why = why
        self.err = err

    def __repr__(self):
        return "Crash(%s)" % self.why


def compile_header(text, proto_name, work, exe=None, extra_args=()):
    """Runs protogen on a schema text. Returns the header path."""
    src = os.path.join(work, proto_name + ".proto")
    dst = os.path.join(work, proto_name + ".pg.hh")
    with open(src, "wb") as f:
        f.write(text if isinstance(text, bytes) else text.encode("utf-8"))
    r = build.run([exe or build.exe(), src, dst], timeout=60)
    if r.timeout or r.rc != 0:
        raise Violation("protogen does not accept a valid schema (%s)" % ("hangs" if r.timeout else "exit status %d" % r.rc),
                        {"schema": text, "stderr": r.err.decode(errors="replace")[:2000]})
    return dst


def namespace_of(header):
    with open(header, encoding="utf-8", errors="replace") as f:
        m = re.search(r"namespace (protogen_\d+_\d+_\d+)", f.read())
    if not m:
        raise Violation("the generated header has no protogen namespace", {"header": header})
    return m.group(1)


def visit_code(s):
    out = []
    for m in s.messages:
        body = []
        for f in m.fields:
            k = {"int": "num", "bool": "num", "double": "num", "float": "num", "string": "str", "bytes": "byt", "message": "msg"}[f.kind]
            body.append("    v.%s%s(m.%s);" % ("r" if f.repeated else "", k, f.name))
        out.append("template<class V> void visit(V &v, %s &m)\n{\n    (void) v; (void) m;\n%s\n}\n" % (s.cpp(m), "\n".join(body)))
    return "\n".join(out)


def expected_type(s, f, ns, lists=None):
    """The documented C++ type of a field."""
    lists = s.use_lists if lists is None else lists
    if f.kind == "string":
        t = ns + "::string_field"
    elif f.kind == "bytes":
        t = "std::vector<uint8_t>"
    elif f.kind == "message":
        t = s.cpp(f.ref)
    else:
        t = S.CPP[f.type] if f.repeated else "%s::field<%s>" % (ns, S.CPP[f.type])
    if f.repeated:
        t = "std::%s< %s >" % ("list" if lists else "vector", t)
    return t


def driver_code(s, header, ns, types=False, ext=None):
    out = ['#include "%s"' % os.path.basename(header), "#define PGNS %s" % ns, '#include "pgdrv.hh"', "namespace drv {",
           visit_code(s), "} // namespace drv"]
    if ext:
        out.append(ext)
    out.append("int main()\n{\n    std::vector<drv::Base*> types;")
    for m in s.messages:
        out.append("    types.push_back(new drv::Type< %s >());" % s.cpp(m))
    out.append("    std::string info;")
    if types:
        for m, f in s.fields():
            alts = [expected_type(s, f, ns)]
            if f.kind == "bytes" and f.repeated and s.use_lists:
                # the README can be read both ways here
                alts.append(expected_type(s, f, ns, False))
            cond = " || ".join("std::is_same<decltype(%s::%s), %s >::value" % (s.cpp(m), f.name, t) for t in alts)
            out.append("    info += (char) (%s);" % cond)
    out.append("    return drv::drive(types, info, %s);\n}" % ("drv::ext" if ext else "nullptr"))
    return "\n".join(out)


FLAGS = {
    "plain": ["g++", "-std=c++11", "-O0", "-w"],
    "clang": ["clang++", "-std=c++11", "-O0", "-w"],
    "asan": ["clang++", "-std=c++11", "-O1", "-g1", "-w", "-DPG_EXACT", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
             "-fno-omit-frame-pointer"],
    "growth": ["g++", "-std=c++11", "-O1", "-w", "-DPG_GROWTH"],
    "faults": ["g++", "-std=c++11", "-O0", "-w", "-DPG_FAULTS"],
    "faults-asan": ["clang++", "-std=c++11", "-O0", "-g1", "-w", "-DPG_FAULTS", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"],
    "tsan": ["clang++", "-std=c++11", "-O1", "-g1", "-w", "-DPG_THREADS", "-pthread", "-fsanitize=thread"],
    "threads": ["g++", "-std=c++11", "-O2", "-w", "-DPG_THREADS", "-pthread"],
}
SAN_ENV = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0:max_allocation_size_mb=4096",
           "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=77", "TSAN_OPTIONS": "exitcode=66:halt_on_error=1"}


class Driver:
    def __init__(self, s, kind="plain", text=None, types=False, ext=None, flags=(), name="s", env=None):
        self.s = s
        self.kind = kind
        self.text = text if text is not None else S.render(s)
        self.work = tempfile.mkdtemp(prefix="vp-drv-")
        self.env = dict(build.ENV)
        self.env.update(SAN_ENV)
        if env:
            self.env.update(env)
        try:
            self.header = compile_header(self.text, name, self.work)
            self.ns = namespace_of(self.header)
            code = driver_code(s, self.header, self.ns, types, ext)
            with open(os.path.join(self.work, "driver.cc"), "w") as f:
                f.write(code)
            self.exe = os.path.join(self.work, "driver")
            cmd = (list(kind) if isinstance(kind, tuple) else FLAGS[kind]) + list(flags) + ["-I", self.work, "-I", HARNESS, os.path.join(self.work, "driver.cc"), "-o", self.exe]
            r = subprocess.run(cmd, env=build.ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
            if r.returncode:
                err = r.stdout.decode(errors="replace")
                if "Cannot allocate memory" in err or "Killed" in err or "No space left" in err:
                    raise RuntimeError(err)
                raise Violation("the generated header does not compile or lacks part of its interface",
                                {"schema": self.text, "compiler": " ".join(cmd[:-6]), "errors": "\n".join(
                                    [l for l in err.splitlines() if "error" in l][:10] or err.splitlines()[:10])})
        except BaseException:
            self.close()
            raise

    def close(self):
        shutil.rmtree(self.work, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def raw(self, cases, timeout):
        data = b"".join(struct.pack("<I", len(c)) + c for c in cases)
        mem = (3 << 30) if self.kind in ("plain", "clang") or isinstance(self.kind, tuple) else 0
        p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=self.env,
                             preexec_fn=build._limits(mem, int(timeout) + 5))
        hung = False
        try:
            out, err = p.communicate(data, timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            out, err = p.communicate()
            hung = True
        res = []
        pos = 0
        while pos + 4 <= len(out) and len(res) < len(cases):
            n = struct.unpack_from("<I", out, pos)[0]
            if pos + 4 + n > len(out):
                break
            res.append(out[pos + 4:pos + 4 + n])
            pos += 4 + n
        return res, p.returncode, hung, err

    def run(self, cases, timeout=60, case_timeout=20):
        """Responses of the cases, each executed from a clean state; Crash for a case that kills or hangs the driver."""
        out = []
        todo = list(cases)
        budget = 40   # crashes tolerated before giving up on the rest
        while todo:
            res, rc, hung, err = self.raw(todo, timeout)
            out += res
            todo = todo[len(res):]
            if not todo:
                if rc == 66:
                    # the thread sanitizer reports at exit as well
                    out[-1] = Crash("sanitizer report", err.decode(errors="replace")[-6000:])
                break
            if rc in (97, 98, 99):
                raise RuntimeError("driver protocol error: " + err.decode(errors="replace")[-500:])
            # the first unanswered case is the one that failed; run it alone to be sure
            one, rc1, hung1, err1 = self.raw(todo[:1], case_timeout)
            if one:
                if not hung and rc == 0:
                    raise RuntimeError("driver stopped without a reason")
                if hung:
                    out += one
                    todo = todo[1:]
                    continue
                # depends on the previous cases of the process (heap state): report what was seen
                out.append(Crash("exit status %d after earlier cases" % rc, err.decode(errors="replace")[-6000:]))
            else:
                if hung1:
                    budget = 1
                out.append(Crash("hangs" if hung1 else "exit status %d" % rc1, err1.decode(errors="replace")[-6000:]))
            todo = todo[1:]
            budget -= 1
            if budget == 0:
                out += [None] * len(todo)
                break
        return out


class Ops:
    """Builds the request of one case and decodes its response in the same order."""

    def __init__(self, s):
        self.s = s
        self.b = []
        self.dec = []

    def data(self):
        return b"".join(self.b)

    def _op(self, op, m, a):
        self.b.append(bytes([ord(op), m.idx, a]))

    def new(self, m, a):
        self._op("N", m, a)

    def set(self, m, a, v, style=0):
        self._op("S", m, a)
        self.b.append(bytes([style]) + V.encode(m, v))

    def dump(self, m, a):
        self._op("D", m, a)
        self.dec.append(lambda r: V.dec_msg(m, r))

    @staticmethod
    def _pm(mode, ascii_, null):
        return bytes([mode, (1 if ascii_ else 0) | (2 if null else 0)])

    @staticmethod
    def _err(r):
        return {"code": r.i32(), "line": r.i32(), "col": r.i32(), "msg": r.blob(), "flags": r.u8()}

    def ser(self, m, a, sink=0, mode=0, ascii_=False, null=False, prefix=b""):
        """-> {ok, out, err|None, guard}. sink 3: prefix is the length difference; sink 4: the stream's capacity."""
        self._op("s", m, a)
        if sink in (3, 4):
            prefix = struct.pack("<i", prefix)
        self.b.append(bytes([sink]) + self._pm(mode, ascii_, null) + struct.pack("<I", len(prefix)) + prefix)

        def d(r):
            res = {"guard": True}
            if sink == 3:
                res["guard"] = bool(r.u8())
            res["ok"] = bool(r.u8())
            res["out"] = r.blob()
            res["err"] = self._err(r) if mode else None
            return res
        self.dec.append(d)

    def des(self, m, a, text, source=0, mode=0, ascii_=False, null=False):
        self._op("d", m, a)
        self.b.append(bytes([source]) + self._pm(mode, ascii_, null) + struct.pack("<I", len(text)) + text)

        def d(r):
            return {"ok": bool(r.u8()), "restored": bool(r.u8()), "err": self._err(r) if mode else None}
        self.dec.append(d)

    def round(self, m, a, b, source=0, mode=0, ascii_=False, null=False):
        self._op("Z", m, a)
        self.b.append(bytes([b]) + self._pm(mode, ascii_, null) + bytes([source]))

        def d(r):
            res = {"ok": bool(r.u8()), "out": r.blob(), "err": self._err(r) if mode else None}
            res["ok2"], res["restored"] = bool(r.u8()), bool(r.u8())
            res["err2"] = self._err(r) if mode else None
            return res
        self.dec.append(d)

    def two(self, op, m, a, b):
        """op: C copy-assign, A move-assign, K copy-construct, M move-construct, W swap"""
        self._op(op, m, a)
        self.b.append(bytes([b]))

    def clear(self, m, a):
        self._op("X", m, a)

    def empty(self, m, a):
        self._op("E", m, a)
        self.dec.append(lambda r: bool(r.u8()))

    def eq(self, m, a, b):
        self._op("=", m, a)
        self.b.append(bytes([b]))
        self.dec.append(lambda r: (bool(r.u8()), bool(r.u8()), bool(r.u8())))

    def setf(self, m, a, idx, v, style=0):
        self._op("F", m, a)
        o = []
        V.enc_field(m.fields[idx], v, o)
        self.b.append(struct.pack("<IB", idx, style) + b"".join(o))

    def clearf(self, m, a, idx):
        self._op("L", m, a)
        self.b.append(struct.pack("<I", idx))

    def emptyf(self, m, a, idx):
        self._op("e", m, a)
        self.b.append(struct.pack("<I", idx))
        self.dec.append(lambda r: bool(r.u8()))

    def eqf(self, m, a, b, idx):
        self._op("c", m, a)
        self.b.append(struct.pack("<BI", b, idx))
        self.dec.append(lambda r: (bool(r.u8()), bool(r.u8())))

    def cmpv(self, m, a, idx, v):
        """Compares a singular number or string field with a value -> [==, != (, == and != with a C string)]"""
        self._op("v", m, a)
        f = m.fields[idx]
        o = []
        if f.kind == "string":
            o = [struct.pack("<I", len(v)) + v]
        else:
            V.enc_elem(f, v, o)
        self.b.append(struct.pack("<I", idx) + b"".join(o))
        self.dec.append(lambda r: [bool(r.u8()) for _ in range(r.u8())])

    def copyf(self, m, a, b, idx, how):
        self._op("f", m, a)
        self.b.append(struct.pack("<BIB", b, idx, how))

    def locale(self, what, name=""):
        n = name.encode()
        self.b.append(b"l" + bytes([what]) + struct.pack("<I", len(n)) + n)
        self.dec.append(lambda r: bool(r.u8()))

    def query(self):
        self.b.append(b"q")
        self.dec.append(lambda r: (r.blob(), r.blob(), r.blob(), r.q("<Q"), r.u8()))

    def parallel(self, parts, concurrent):
        """parts: [Ops]; their requests run in threads of their own -> list of their raw responses"""
        self.b.append(b"P" + struct.pack("<BI", 1 if concurrent else 0, len(parts)))
        for p in parts:
            d = p.data()
            self.b.append(struct.pack("<I", len(d)) + d)
        n = len(parts)
        self.dec.append(lambda r: [r.blob() for _ in range(n)])

    def types(self):
        self.b.append(b"T")
        self.dec.append(lambda r: r.blob())

    def decode(self, resp):
        r = V.Rd(resp)
        out = [d(r) for d in self.dec]
        if r.p != len(resp):
            raise ValueError("driver response has %d extra bytes" % (len(resp) - r.p))
        return out


def check_cases(ctx, part, drv, make, n, st, tag=""):
    """Generates n cases with make(src) -> Case, runs them and yields a (shrunk, confirmed) Violation per failing group.

    Case: .ops (Ops), .check(results) -> None or a message, .nontrivial, .describe -> JSON-able, .labels
    """
    from .core import Src, shrink, seed_of
    import hashlib
    seeds = [seed_of(ctx.seed, ctx.prop, part, tag, i) for i in range(n)]
    cases = []
    for sd in seeds:
        src = Src(sd)
        c = make(src)
        c.choices = src.rec
        cases.append(c)
    resp = drv.run([c.ops.data() for c in cases])
    bad = []
    for c, r in zip(cases, resp):
        if r is None:
            continue
        msg = verdict(c, r)
        st.count(hashlib.blake2b(drv.text.encode("utf-8", "surrogatepass") + c.ops.data(), digest_size=8).digest(), c.nontrivial)
        for l in c.labels:
            st.label(l)
        if msg is not None:
            bad.append((c, msg))
    if cases and not bad:
        st.sample(cases[len(cases) // 2].describe, 1)
    for c, msg in bad[:1]:
        last = [c, msg]

        def fails(ch):
            src = Src(replay=ch)
            d = make(src)
            r = drv.run([d.ops.data()])[0]
            m = verdict(d, r)
            if m is None:
                return None
            last[0], last[1] = d, m
            return src.rec
        best = shrink(c.choices, fails, max_evals=500, max_seconds=25)
        # the reported case is executed again in fresh processes
        again = [fails(best) is not None for _ in range(3)]
        if not all(again):
            best = c.choices
            if not all(fails(best) is not None for _ in range(3)):
                # the failure needs the earlier cases of the same process
                upto = [d.ops.data() for d in cases[:cases.index(c) + 1]]
                ms = [verdict(c, (drv.run(upto) or [None])[-1]) for _ in range(3)]
                if not all(ms):
                    st.label("not reproducible: " + msg[:60])
                    continue
                last = [c, ms[0] + " (only after the earlier cases of the partition)"]
        yield Violation(last[1], {"part": part, "tag": tag, "choices": list(best), "schema": drv.text, "case": last[0].describe})


class Differs:
    """Builds of one program that answer differently."""

    def __init__(self, flags, base, other):
        self.flags, self.base, self.other = flags, base, other

    def explain(self, c):
        if isinstance(self.other, Crash):
            return "crash of the program built with %s: %s\n%s" % (self.flags, self.other.why, summary(self.other.err))
        try:
            a, b = c.ops.decode(self.base), c.ops.decode(self.other)
        except (ValueError, IndexError, struct.error) as e:
            return "unusable driver response (%s) of the program built with %s" % (e, self.flags)
        for x, y in zip(a, b):
            if repr(x) != repr(y):
                return "built with %s the answer is %s instead of %s" % (self.flags, repr(y)[:400], repr(x)[:400])
        return None


OPTIONAL = {"-fno-exceptions", "-fno-rtti", "-U_GNU_SOURCE"}


class Builds:
    """The same driver built in several ways; quacks like a Driver."""

    def __init__(self, s, commands, ext=None):
        self.s = s
        self.drivers = []
        try:
            for cmd in commands:
                try:
                    self.drivers.append(Driver(s, kind=tuple(cmd), ext=ext))
                except Violation:
                    # modes that C++11 code does not need to support
                    if not set(cmd) & OPTIONAL:
                        raise
        except BaseException:
            self.close()
            raise
        self.text = self.drivers[0].text

    def close(self):
        for d in self.drivers:
            d.close()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def run(self, cases):
        res = [d.run(cases) for d in self.drivers]
        out = []
        for i, base in enumerate(res[0]):
            for d, r in zip(self.drivers[1:], res[1:]):
                if not isinstance(base, Crash) and base is not None and r[i] is not None and r[i] != base:
                    base = Differs(" ".join(d.kind), base, r[i])
                    break
            out.append(base)
        return out


def verdict(c, r):
    if isinstance(r, Differs):
        return r.explain(c)
    if isinstance(r, Crash):
        return "crash: %s\n%s" % (r.why, summary(r.err))
    try:
        res = c.ops.decode(r)
    except (ValueError, IndexError, struct.error) as e:
        return "unusable driver response (%s)" % e
    return c.check(res)


def summary(err):
    lines = [l for l in err.splitlines() if "ERROR" in l or "runtime error" in l or "SUMMARY" in l or re.match(r"\s+#[0-5] ", l)]
    return "\n".join(lines[:12])


class Case:
    __slots__ = ("ops", "check", "nontrivial", "describe", "labels", "choices")

    def __init__(self, ops, check, nontrivial, describe, labels=()):
        self.ops, self.check, self.nontrivial, self.describe, self.labels = ops, check, nontrivial, describe, labels
