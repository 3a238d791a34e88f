"""C14: exit status, output and determinism of the command line, with injected I/O faults."""
import hashlib
import os
import resource
import shutil
import signal
import subprocess
from .common import *
from .. import build, protoref
from ..driver import HARNESS
from . import c10, c11

RULE = ("a case is one command line (schema, number of arguments, kind of input, kind of output target, limit on the size of files, failing allocation, unprivileged user, environment) compared with "
        "the contract; non-trivial: the run must fail, or the output replaces an existing file, or goes through a link, a pipe or a size limit; distinct by schema and command line")
ASSUMPTIONS = ["the complete header is what the same program writes to a pipe for the same input (C08 and C09 decide what it must contain)",
               "a file size limit with SIGXFSZ ignored stands for a full disk; /dev/full for a device without space"]
NOBODY = 65534


def partitions(ctx):
    return list(range(16 if ctx.quick else 160))


def prepare(ctx):
    build.exe()
    nomem()


def nomem():
    """A library that makes allocations of a program fail."""
    with open(os.path.join(HARNESS, "nomem.cc"), "rb") as f:
        out = os.path.join(build.cache_dir(), "nomem-%s.so" % hashlib.sha256(f.read()).hexdigest()[:8])
    if not os.path.exists(out):
        r = subprocess.run(["g++", "-O1", "-shared", "-fPIC", "-o", out + ".tmp", os.path.join(HARNESS, "nomem.cc")], env=build.ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise RuntimeError(r.stdout.decode(errors="replace"))
        os.rename(out + ".tmp", out)
    return out


def launch(cmd, cwd, stdout=subprocess.PIPE, limit=None, user=False, env=None, close_out=False):
    def pre():
        os.setpgrp()
        if limit is not None:
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_CPU, (20, 21))
        if user:
            os.setgroups([])
            os.setgid(NOBODY)
            os.setuid(NOBODY)
        if close_out:
            os.close(1)
    e = dict(build.ENV)
    e.update(env or {})
    p = subprocess.Popen(cmd, cwd=cwd, stdin=subprocess.DEVNULL, stdout=stdout, stderr=subprocess.PIPE, preexec_fn=pre, env=e)
    try:
        out, err = p.communicate(timeout=40)
        return p.returncode, out or b"", err, False
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return -9, b"", b"", True


ENVS = [{}, {"MALLOC_PERTURB_": "165"}, {"LANG": "de_DE.UTF-8", "LC_ALL": "C.UTF-8"}, {"TZ": "Asia/Tokyo", "HOME": "/nonexistent"}, {"TMPDIR": "/nonexistent", "POSIXLY_CORRECT": "1"}, {"MALLOC_PERTURB_": "1"}]


def maker(ctx, part, top):
    exe = os.path.join(top, "protogen")
    if not os.path.exists(exe):
        shutil.copy(build.exe(), exe)
        os.chmod(exe, 0o755)
        os.chmod(top, 0o755)
    seq = [0]

    def make(src):
        s = S.gen_schema(src, max_msgs=src.pick([2, 4]), max_fields=src.pick([4, 8]), wide=src.bool(1, 20), deep=src.bool(1, 20))
        text = raw_text(S.layout(src, S.tokens(s)) if src.bool(1, 3) else S.render(s))
        if src.bool(1, 4):
            text = c11.make_text(src)[1]
        verdict_ = protoref.judge(text)
        nargs = src.weighted([(9, 1), (14, 2), (1, 0), (1, 3), (1, 4)])
        inp = src.weighted([(24, "file"), (1, "missing"), (1, "directory"), (1, "denied"), (1, "loop"), (1, "through a file"), (1, "empty name"), (2, "link"), (1, "mem"), (2, "relative"),
                            (1, "odd name"), (1, "dangling link"), (1, "denied directory")])
        out = src.weighted([(6, "new"), (6, "longer"), (3, "shorter"), (2, "link"), (2, "full"), (1, "directory"), (1, "missing directory"), (1, "denied"), (1, "denied directory"), (1, "null"), (1, "through a file"),
                            (1, "empty name"), (1, "dangling link"), (1, "read-only existing"), (1, "too long"), (1, "/dev/stdout")]) if nargs >= 2 else \
            src.weighted([(6, "pipe"), (4, "file"), (3, "full"), (2, "closed"), (1, "null")])
        user = inp in ("denied", "denied directory") or out in ("denied", "denied directory", "read-only existing")
        if user and out == "/dev/stdout":
            # the pipe belongs to other user
            out = "new"
        limited = src.weighted([(3, None), (1, 0), (1, 1), (1, -1), (2, -2), (2, -3)])
        limit_draw = src.draw(1 << 20)
        env1, env2 = src.pick(ENVS), src.pick(ENVS)
        key = repr((text, nargs, inp, out, limited, limit_draw if limited == -3 else 0))

        def judge():
            seq[0] += 1
            work = os.path.join(top, "w%d" % seq[0])
            os.mkdir(work)
            os.chmod(work, 0o777)
            try:
                return run(work)
            finally:
                for d, ds, fs in os.walk(work):
                    for x in ds:
                        if not os.path.islink(os.path.join(d, x)):
                            os.chmod(os.path.join(d, x), 0o755)
                shutil.rmtree(work)

        def run(work):
            path = os.path.join(work, "schema.proto")
            if inp == "odd name":
                path = os.path.join(work, ["-", "--help", "a b.proto", "ü.proto", "x", "-o", "$1$.proto", "%s"][limit_draw % 8])
            if os.path.basename(path) != "schema.proto":
                arg = path
            with open(path, "wb") as f:
                f.write(text)
            ok = verdict_.kind == "ok"
            arg = path
            real = path
            if inp == "missing":
                arg, ok = os.path.join(work, "no-such.proto"), False
            elif inp == "directory":
                arg, ok = work, False
            elif inp == "denied":
                os.chmod(path, 0)
                ok = False
            elif inp == "denied directory":
                d = os.path.join(work, "locked")
                os.mkdir(d)
                shutil.move(path, os.path.join(d, "schema.proto"))
                os.chmod(d, 0)
                arg, ok = os.path.join(d, "schema.proto"), False
            elif inp == "loop":
                arg, ok = os.path.join(work, "loop.proto"), False
                os.symlink("loop.proto", arg)
            elif inp == "dangling link":
                arg, ok = os.path.join(work, "dangling.proto"), False
                os.symlink("nothing", arg)
            elif inp == "through a file":
                arg, ok = path + "/x.proto", False
            elif inp == "empty name":
                arg, ok = "", False
            elif inp == "link":
                arg = os.path.join(work, "link.proto")
                os.symlink("schema.proto", arg)
            elif inp == "mem":
                arg, ok = "/proc/self/mem", False
            elif inp == "relative":
                arg = os.path.basename(path)
            # what the same program writes to a pipe
            ref = b""
            if ok:
                rc, ref, err, hung = launch([exe, arg], work)
                if hung or rc != 0:
                    return "a valid schema is refused with status %d: %s" % (rc, err.decode(errors="replace")[:300])
                if err:
                    pass
                if not ref:
                    return "exit status 0 without any output"
            n = len(ref)
            limit = None
            if limited is not None:
                limit = {0: 0, 1: 1, -1: max(0, n - 1), -2: n, -3: limit_draw % (n + 1000)}[limited]
            args = [exe] + ([] if nargs == 0 else [arg])
            target = None
            stdout = subprocess.PIPE
            close_out = False
            fits = limit is None or limit >= n
            handle = None
            counted = True
            want = ok and nargs in (1, 2)
            if nargs >= 2:
                target = os.path.join(work, "out.hh")
                shown = target
                if out == "longer":
                    with open(target, "wb") as f:
                        f.write(b"old content " * (n // 10 + 200))
                elif out == "shorter":
                    with open(target, "wb") as f:
                        f.write(b"old\n")
                elif out == "link":
                    target = os.path.join(work, "real.hh")
                    with open(target, "wb") as f:
                        f.write(b"x" * (n + 7))
                    os.symlink("real.hh", shown)
                elif out == "dangling link":
                    target = os.path.join(work, "real.hh")
                    os.symlink("real.hh", shown)
                elif out == "full":
                    shown, target, want, counted = "/dev/full", None, False, False
                elif out == "null":
                    shown, target, fits = "/dev/null", None, True
                elif out == "directory":
                    os.mkdir(target)
                    want, counted = False, False
                elif out == "missing directory":
                    shown, want, counted = os.path.join(work, "nowhere", "out.hh"), False, False
                elif out == "through a file":
                    shown, want, counted = path + "/out.hh", False, False
                elif out == "empty name":
                    shown, want, counted = "", False, False
                elif out == "too long":
                    shown, want, counted = os.path.join(work, "n" * 300), False, False
                elif out == "denied":
                    with open(target, "wb") as f:
                        f.write(b"old\n")
                    os.chmod(target, 0)
                    want, counted = False, False
                elif out == "read-only existing":
                    with open(target, "wb") as f:
                        f.write(b"old\n")
                    os.chmod(target, 0o444)
                    want, counted = False, False
                elif out == "denied directory":
                    d = os.path.join(work, "ro")
                    os.mkdir(d)
                    os.chmod(d, 0o555)
                    shown, want, counted = os.path.join(d, "out.hh"), False, False
                elif out == "/dev/stdout":
                    shown, target, fits = "/dev/stdout", None, True
                args += [shown]
                for i in range(nargs - 2):
                    args.append("extra%d" % i)
            else:
                if out == "file":
                    target = os.path.join(work, "stdout.txt")
                    handle = stdout = open(target, "wb")
                elif out == "full":
                    handle = stdout = open("/dev/full", "wb")
                    want = False
                elif out == "null":
                    handle = stdout = open("/dev/null", "wb")
                    fits = True
                elif out == "closed":
                    close_out, want = True, False
                else:
                    fits = True
            if not fits:
                want = False
            try:
                rc, got, err, hung = launch(args, work, stdout, limit, user, env1, close_out)
            except PermissionError:
                return None
            finally:
                if handle:
                    handle.close()
            where = "%s with input: %s, output: %s, %d arguments%s" % ("a %s schema" % verdict_.kind, inp, out, nargs, "" if limit is None else ", files limited to %d of %d bytes" % (limit, n))
            said = err.decode("utf-8", "replace").strip()[:200]
            if hung:
                return "the program hangs: " + where
            if rc < 0:
                return "the program is killed by signal %d: %s" % (-rc, where)
            if verdict_.kind == "any" and inp in ("file", "link", "relative", "odd name"):
                return None
            if want:
                if rc != 0:
                    return "exit status %d (%s) although everything is fine: %s" % (rc, said, where)
                data = None
                if target is not None:
                    with open(target, "rb") as f:
                        data = f.read()
                elif stdout is subprocess.PIPE and (nargs == 1 or out == "/dev/stdout"):
                    data = got
                if data is not None and data != ref:
                    i = next((i for i, (x, y) in enumerate(zip(data, ref)) if x != y), min(len(data), len(ref)))
                    return "the output (%d bytes) differs from what goes to a pipe (%d bytes) from byte %d on: %s" % (len(data), n, i, where)
                # again, with another environment
                if target is not None and nargs == 2:
                    rc, got, err, hung = launch(args, work, subprocess.PIPE, None, user, env2)
                    with open(target, "rb") as f:
                        if rc != 0 or f.read() != ref:
                            return "running the command again gives another result (status %d): %s" % (rc, where)
                return None
            if rc == 0:
                return "exit status 0 although the run can not succeed: %s" % where
            if not said:
                return "exit status %d without a message on standard error: %s" % (rc, where)
            return None
        hard = verdict_.kind == "reject" or nargs not in (1, 2) or inp not in ("file", "relative", "odd name") or out not in ("new", "pipe", "null") or limited is not None
        return Plain(key, hard and verdict_.kind != "any", {"schema": short(text, 300), "arguments": nargs, "input": inp, "output": out, "limit": limited}, judge,
                     ["input: " + inp, "output: " + out, "schema: " + verdict_.kind, "size limit" if limited is not None else "no size limit"])
    return make


def memory_maker(ctx, part, top):
    """Runs with one allocation, or all from one on, failing."""
    exe = build.exe()
    lib = nomem()
    seq = [0]

    def make(src):
        s = S.gen_schema(src, max_msgs=src.pick([2, 4]), max_fields=src.pick([4, 8]))
        text = raw_text(S.layout(src, S.tokens(s)) if src.bool(1, 3) else S.render(s))
        if src.bool(1, 4):
            text = c11.make_text(src)[1]
        kind = protoref.judge(text).kind
        where, persist, named = src.draw(1 << 20), src.bool(), src.bool(2, 3)

        def judge():
            seq[0] += 1
            base = os.path.join(top, "m%d" % seq[0])
            path, out, n = base + ".proto", base + ".hh", base + ".count"
            with open(path, "wb") as f:
                f.write(text)
            rc, ref, err, hung = launch([exe, path], top, env={"LD_PRELOAD": lib, "VP_NOMEM_COUNT": n})
            if not os.path.exists(n):
                return None   # the program does not allocate through the replaced operators
            count = int(open(n).read() or "0")
            if rc != 0 and kind == "ok":
                return "a valid schema is refused with status %d: %s" % (rc, err.decode(errors="replace")[:300])
            k = where % max(1, count)
            env = {"LD_PRELOAD": lib, "VP_NOMEM": str(k)}
            if persist:
                env["VP_NOMEM_PERSIST"] = "1"
            rc2, got, err, hung = launch([exe, path] + ([out] if named else []), top, env=env)
            if named:
                got = b""
                if os.path.exists(out):
                    with open(out, "rb") as f:
                        got = f.read()
            for x in (path, out, n):
                if os.path.exists(x):
                    os.remove(x)
            told = "allocation %d of %d fails%s" % (k, count, " and those after it" if persist else "")
            if hung:
                return "the program hangs when " + told
            if rc2 == 0 and (rc != 0 or got != ref):
                return "exit status 0 with %d bytes written instead of %d when %s" % (len(got), len(ref), told)
            if rc2 < 0 and rc2 != -signal.SIGABRT:
                return "the program is killed by signal %d when %s" % (-rc2, told)
            if rc2 != 0 and not err.strip():
                return "exit status %d without a message on standard error when %s" % (rc2, told)
            return None
        return Plain(repr((text, where, persist, named)), True, {"schema": short(text, 300), "allocation": where, "persistent": persist}, judge, ["memory"])
    return make


def run_part(ctx, part, st):
    with Work() as top:
        yield from plain_cases(ctx, part, memory_maker(ctx, part, top), 80 if ctx.quick else 600, st, "memory")
        yield from plain_cases(ctx, part, maker(ctx, part, top), 220 if ctx.quick else 1000, st)


def replay(ctx, info):
    with Work() as top:
        if info.get("tag") == "memory":
            return memory_maker(ctx, info["part"], top)(Src(replay=info["choices"])).judge()
        return maker(ctx, info["part"], top)(Src(replay=info["choices"])).judge()
