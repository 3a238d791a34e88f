"""Builds protogen from /repo's working tree, out of tree, cached by content."""
import fcntl
import hashlib
import os
import resource
import shutil
import subprocess

from .core import VERIF

REPO = os.environ.get("VP_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
ENV = dict(os.environ)
ENV["PATH"] = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
for _k in ("CXXFLAGS", "CFLAGS", "LDFLAGS", "CC", "CXX", "CPPFLAGS", "MAKEFLAGS", "MAKELEVEL", "ASAN_OPTIONS", "UBSAN_OPTIONS", "LC_ALL", "LANG"):
    ENV.pop(_k, None)

SAN = "-fsanitize=address,undefined -fno-sanitize-recover=all -fno-omit-frame-pointer -g1"


# other ways in which somebody may build protogen
OTHER_BUILDS = {
    "other0": ("g++", "-funsigned-char -D_GLIBCXX_ASSERTIONS -ftrivial-auto-var-init=pattern"),
    "other1": ("clang++", "-DNDEBUG -ftrivial-auto-var-init=pattern -D_GLIBCXX_USE_CXX11_ABI=0"),
    "other2": ("clang++", "-funsigned-char -fno-rtti -D_GLIBCXX_DEBUG"),
    "other3": ("g++", "-DNDEBUG -fno-strict-aliasing -fwrapv -fno-builtin -fshort-wchar"),
}


class BuildError(Exception):
    pass


def tree_hash():
    h = hashlib.sha256()
    for top in ("CMakeLists.txt", "include", "source"):
        p = os.path.join(REPO, top)
        if os.path.isfile(p):
            files = [p]
        else:
            files = sorted(os.path.join(d, f) for d, _, fs in os.walk(p) for f in fs)
        for f in files:
            h.update(os.path.relpath(f, REPO).encode() + b"\0")
            with open(f, "rb") as fd:
                h.update(hashlib.sha256(fd.read()).digest())
    h.update(REPO.encode())
    return h.hexdigest()[:16]


_hash = None


def cache_dir():
    global _hash
    if _hash is None:
        _hash = tree_hash()
    d = os.path.join(CACHE, _hash)
    os.makedirs(d, exist_ok=True)
    return d


def _prune():
    """Keep the newest few build trees only."""
    if not os.path.isdir(CACHE):
        return
    ds = sorted((os.path.getmtime(os.path.join(CACHE, d)), d) for d in os.listdir(CACHE) if len(d) == 16)
    for _, d in ds[:-4]:
        shutil.rmtree(os.path.join(CACHE, d), ignore_errors=True)


def protogen(kind="plain", targets=("protogen",)):
    """Path of a build directory with the protogen program built. kind: plain or san (clang, address+undefined)."""
    d = os.path.join(cache_dir(), kind)
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(cache_dir(), kind + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        stamp = os.path.join(d, "ok-" + "-".join(targets))
        if os.path.exists(stamp):
            return d
        _prune()
        cmd = ["cmake", "-S", REPO, "-B", d, "-G", "Unix Makefiles", "-DCMAKE_BUILD_TYPE=Release", "-Wno-dev"]
        if kind in OTHER_BUILDS:
            comp, flags = OTHER_BUILDS[kind]
            cmd += ["-DCMAKE_CXX_COMPILER=" + comp, "-DCMAKE_C_COMPILER=" + {"g++": "gcc", "clang++": "clang"}[comp], "-DCMAKE_CXX_FLAGS=" + flags]
        elif kind == "plain":
            cmd += ["-DCMAKE_CXX_COMPILER=g++", "-DCMAKE_C_COMPILER=gcc"]
        else:
            flags = SAN
            if kind == "fuzz":
                flags = SAN + " -fsanitize=fuzzer-no-link"
            elif kind == "tsan":
                flags = "-fsanitize=thread -g1"
            cmd += ["-DCMAKE_CXX_COMPILER=clang++", "-DCMAKE_C_COMPILER=clang", "-DCMAKE_CXX_FLAGS=" + flags,
                    "-DCMAKE_C_FLAGS=" + flags]
        env = dict(ENV)
        env["ASAN_OPTIONS"] = "detect_leaks=0"
        for c in (cmd, ["make", "-C", d, "--no-print-directory", "-j8"] + list(targets)):
            r = subprocess.run(c, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                raise BuildError("%s\n%s" % (" ".join(c), r.stdout.decode(errors="replace")[-4000:]))
        open(stamp, "w").close()
    return d


def other_version(numbers):
    """protogen as another release would be: other version numbers and other texts in the messages of the runtime."""
    import re
    import tempfile
    d = os.path.join(cache_dir(), "version-%d-%d-%d" % numbers)
    with open(d + ".lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(d, "protogen")):
            return os.path.join(d, "protogen")
        tmp = tempfile.mkdtemp(prefix="vp-version-")
        try:
            src = os.path.join(tmp, "src")
            os.mkdir(src)
            for x in ("CMakeLists.txt", "include", "source", "tests"):
                y = os.path.join(REPO, x)
                if os.path.isdir(y):
                    shutil.copytree(y, os.path.join(src, x))
                elif os.path.exists(y):
                    shutil.copy(y, src)
            path = os.path.join(src, "CMakeLists.txt")
            with open(path, encoding="utf-8") as f:
                text = f.read()
            for name, n in zip(("MAJOR", "MINOR", "PATCH"), numbers):
                text, k = re.subn(r"set\s*\(\s*PROTOGEN_%s\s+\d+\s*\)" % name, "set(PROTOGEN_%s %d)" % (name, n), text)
                if k != 1:
                    raise BuildError("the version numbers are not in CMakeLists.txt")
            with open(path, "w", encoding="utf-8") as f:
                f.write(text)
            for top, _, files in os.walk(os.path.join(src, "source", "cpp")):
                for x in files:
                    if x.endswith(".hh"):
                        y = os.path.join(top, x)
                        with open(y, encoding="utf-8") as f:
                            text = f.read()
                        with open(y, "w", encoding="utf-8") as f:
                            f.write(re.sub(r'"[^"\n]*"', lambda m: m.group(0).replace("invalid", "iNvaLid"), text))
            out = os.path.join(tmp, "out")
            for c in (["cmake", "-S", src, "-B", out, "-G", "Unix Makefiles", "-DCMAKE_BUILD_TYPE=Release", "-Wno-dev", "-DCMAKE_CXX_COMPILER=g++", "-DCMAKE_C_COMPILER=gcc"],
                      ["make", "-C", out, "--no-print-directory", "-j8", "protogen"]):
                r = subprocess.run(c, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                if r.returncode:
                    raise BuildError("%s\n%s" % (" ".join(c), r.stdout.decode(errors="replace")[-4000:]))
            os.makedirs(d, exist_ok=True)
            shutil.copy(os.path.join(out, "protogen"), os.path.join(d, "protogen"))
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    return os.path.join(d, "protogen")


def exe(kind="plain"):
    return os.path.join(protogen(kind), "protogen")


def _limits(mem, cpu):
    def f():
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 1))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 30, 1 << 30))
    return f


class Run:
    __slots__ = ("rc", "out", "err", "timeout")

    def __init__(self, rc, out, err, timeout):
        self.rc, self.out, self.err, self.timeout = rc, out, err, timeout


def run(cmd, timeout=60, mem=2 << 30, cpu=20, env=None, cwd=None, stdin=None, stdout=subprocess.PIPE):
    p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL if stdin is None else stdin, stdout=stdout, stderr=subprocess.PIPE,
                         env=env or ENV, cwd=cwd, preexec_fn=_limits(mem, cpu))
    try:
        out, err = p.communicate(timeout=timeout)
        return Run(p.returncode, out or b"", err, False)
    except subprocess.TimeoutExpired:
        p.kill()
        out, err = p.communicate()
        return Run(-9, out or b"", err, True)


def with_library(kind, source, name, flags=()):
    """A program of ours linked with the compiler's library, of the given kind of build."""
    import glob
    d = protogen(kind)
    with open(source, "rb") as fd:
        out = os.path.join(cache_dir(), "%s-%s-%s" % (name, kind, hashlib.sha256(fd.read() + repr(flags).encode()).hexdigest()[:8]))
    with open(out + ".lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(out):
            return out
        libs = sorted(glob.glob(os.path.join(d, "**", "*.a"), recursive=True))
        san = {"plain": [], "san": SAN.split(), "tsan": ["-fsanitize=thread", "-g1"]}[kind]
        cmd = ["g++" if kind == "plain" else "clang++", "-std=c++11", "-O1", "-w", "-pthread"] + san + list(flags) + ["-I" + os.path.join(REPO, "include"), source] + libs + ["-o", out + ".tmp"]
        r = subprocess.run(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout.decode(errors="replace")[-4000:]))
        os.rename(out + ".tmp", out)
    return out
