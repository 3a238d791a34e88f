"""C16: JSON and generated code do not depend on the locale."""
import os
import shutil
import subprocess
from .common import *
from .. import arrays, build
from . import c04, c10

RULE = ("a case is one list of operations (serialise, deserialise, round trip, arrays; objects, documents and damaged documents) executed in the C locale and under another combination of C "
        "locale, thread locale, C++ global locale and stream locale in one process (in either order), which must give the same answers and leave the locale alone; or one schema compiled "
        "under different locale environments; non-trivial: the locale was really installed and the value or document has at least one number or non-ASCII byte; distinct by schema and request")
ASSUMPTIONS = ["the locales are those localedef can build here (comma or Arabic decimal separators, digit grouping, Turkish letters, EUC-JP, Shift-JIS, GB18030, ISO-8859-1) "
               "and a C++ numpunct facet with irregular grouping"]
NAMES = ["de_DE.UTF-8", "tr_TR.UTF-8", "fa_IR.UTF-8", "ps_AF.UTF-8", "hi_IN.UTF-8", "de_CH.UTF-8", "fr_FR.ISO-8859-1", "ja_JP.EUC-JP", "ja_JP.SHIFT_JIS", "zh_CN.GB18030"]
LOCALES = os.path.join(build.CACHE, "locales")


def prepare(ctx):
    build.exe()
    if not shutil.which("localedef"):
        return
    os.makedirs(LOCALES, exist_ok=True)
    jobs = []
    for n in NAMES:
        d = os.path.join(LOCALES, n)
        if os.path.exists(os.path.join(d, "LC_NUMERIC")):
            continue
        tmp = d + ".%d" % os.getpid()
        jobs.append((subprocess.Popen(["localedef", "-i", n.split(".")[0], "-f", n.split(".")[1], tmp], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL), tmp, d))
    for p, tmp, d in jobs:
        p.wait()
        if os.path.exists(os.path.join(tmp, "LC_NUMERIC")) and not os.path.exists(d):
            os.rename(tmp, d)
        else:
            shutil.rmtree(tmp, ignore_errors=True)


def partitions(ctx):
    n, k = (20, 8) if ctx.quick else (160, 40)
    return ["cli%d" % i for i in range(k)] + list(range(n))


def driver_for(ctx, part):
    s = arrays.seeded(schema_of(ctx, part, max_msgs=3, max_fields=10))
    if part % 4 == 1:
        # without the extensions of the C library
        flags = ["-U_GNU_SOURCE", "-D_XOPEN_SOURCE=700"]
        try:
            return Driver(s, ext=arrays.ext_code(s), env={"LOCPATH": LOCALES}, flags=flags)
        except Violation:
            pass
    return Driver(s, kind="clang" if part % 4 == 3 else "plain", ext=arrays.ext_code(s), env={"LOCPATH": LOCALES})


def install(src):
    """[(what, name)]"""
    out = []
    name = src.pick(NAMES)
    k = src.draw(9)
    if k == 0:
        out = [(0, name)]
    elif k == 1:
        out = [(1, name)]
    elif k == 2:
        out = [(2, "")]
    elif k == 3:
        out = [(3, "")]
    elif k == 4:
        out = [(4, name)]
    elif k == 5:
        out = [(0, name), (2, ""), (3, "")]
    elif k == 6:
        out = [(0, src.pick(NAMES)), (4, name), (3, "")]
    elif k == 7:
        out = [(1, name), (3, "")]
    else:
        out = [(6, name), (7, src.pick(NAMES))]
    return out


def work(src, s, ts):
    """A list of (what, function adding the operation)"""
    ops = []
    interesting = False
    for _ in range(src.int(1, 3)):
        m = src.pick(s.messages)
        mode, asc, null = params(src)
        k = src.draw(4)
        if k == 0:
            v = V.gen_msg(src, m, [20])
            sink, source, cap = src.draw(4), src.draw(5), src.int(-3, 40)
            interesting = interesting or weight(m, v) > 0

            def f(o, m=m, v=v, mode=mode, asc=asc, null=null, sink=sink, source=source, cap=cap):
                o.new(m, 0)
                o.set(m, 0, v)
                o.ser(m, 0, sink, mode, asc, null, cap if sink == 3 else b"")
                o.new(m, 1)
                o.round(m, 0, 1, source, mode, asc, null)
                o.dump(m, 1)
                o.eq(m, 0, 1)
            ops.append(("write", short(v, 200), f))
        elif k in (1, 2):
            if src.bool():
                text, _ = c04.gen_text(src, s, m)
            else:
                text = (V.ws(src) + V.render_msg(src, s, m, V.drop_transient(m, V.gen_msg(src, m)))).encode("utf-8")
            source = src.draw(5)
            interesting = interesting or any(48 <= b < 58 or b > 127 for b in text)

            def f(o, m=m, text=text, mode=max(1, mode), source=source):
                o.new(m, 2)
                o.des(m, 2, text, source, mode, False, False)
                o.dump(m, 2)
            ops.append(("read", short(text, 200), f))
        else:
            t = src.pick(ts)
            from . import c15
            vs = c15.gen_values(src, t)
            cont, sink, source = src.draw(3), src.draw(3), src.draw(4)
            text = c15.render(src, s, t, vs)
            text = text.encode("utf-8") if isinstance(text, str) else text
            interesting = interesting or len(vs) > 0

            def f(o, t=t, vs=vs, mode=mode, asc=asc, null=null, cont=cont, sink=sink, source=source, text=text):
                arrays.ser(o, t, cont, sink, vs, mode, asc, null)
                arrays.des(o, t, cont, source, text, max(1, mode), False, False)
            ops.append(("array", short(vs, 200), f))
    return ops, interesting


def plain_result(x):
    if isinstance(x, float):
        return x.hex() if x == x else "nan"
    if isinstance(x, dict):
        return {k: plain_result(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain_result(v) for v in x]
    return x


def maker(ctx, part, drv, tag=""):
    s = drv.s
    ts = arrays.types(s)

    def make(src):
        loc = install(src)
        first = src.bool()
        ops, interesting = work(src, s, ts)
        o = Ops(s)

        def group():
            a = len(o.dec)
            for _, _, f in ops:
                f(o)
            return slice(a, len(o.dec))

        def locale():
            a = len(o.dec)
            for what, name in loc:
                o.locale(what, name)
            ok = slice(a, len(o.dec))
            q = len(o.dec)
            o.query()
            g = group()
            q2 = len(o.dec)
            o.query()
            o.locale(5)
            return ok, q, g, q2
        o.locale(5)
        if first:
            lo = locale()
            base = group()
        else:
            base = group()
            lo = locale()
        describe = {"locale": loc, "locale first": first, "operations": [(a, b) for a, b, _ in ops]}

        def check(res):
            ok, q, g, q2 = lo
            if not all(res[ok]):
                return None
            if res[q] != res[q2]:
                return "the locale of the application is changed: %r became %r" % (res[q], res[q2])
            for x, y in zip(res[base], res[g]):
                x, y = plain_result(x), plain_result(y)
                if x != y:
                    return "another locale gives another result: %s instead of %s" % (short(y), short(x))
            return None
        return Case(o, check, interesting, describe, ["locale %s" % "+".join("%d%s" % (a, ":" + b if b else "") for a, b in loc) if len(loc) == 1 else "several locales"])
    return make


# ---------------------------------------------------------------- the compiler

def cli_env(src):
    e = {"LOCPATH": LOCALES}
    for v in ("LC_ALL", "LANG", "LC_NUMERIC", "LC_CTYPE", "LC_COLLATE", "LC_MESSAGES", "LANGUAGE"):
        if src.bool(1, 2 if v == "LC_ALL" else 4):
            e[v] = src.pick(NAMES + ["C", "POSIX", "nonsense", ""])
    return e


def cli_maker(ctx, part, workdir):
    path = os.path.join(workdir, "schema.proto")
    exe = build.exe()
    from . import c11

    def make(src):
        if src.bool(1, 4):
            text = c11.make_text(src)[1]
        else:
            s = S.gen_schema(src, max_msgs=3, max_fields=8)
            text = raw_text(c10.layout(src, S.tokens(s)) if src.bool() else S.render(s))
        env = cli_env(src)

        def judge():
            with open(path, "wb") as f:
                f.write(text)
            res = []
            for e in ({}, env):
                full = dict(build.ENV)
                full.update(e)
                r = build.run([exe, path], env=full)
                res.append((r.rc, r.out, r.err))
            if res[0] != res[1]:
                return "the environment %r changes the compiler's result: status %d, %d bytes, %s instead of %d, %d, %s" % (
                    env, res[1][0], len(res[1][1]), short(res[1][2], 150), res[0][0], len(res[0][1]), short(res[0][2], 150))
            return None
        return Plain(repr((text, sorted(env.items()))), len(env) > 1, {"environment": env, "text": short(text)}, judge, ["compiler"])
    return make


def run_part(ctx, part, st):
    if isinstance(part, str):
        with Work() as w:
            yield from plain_cases(ctx, part, cli_maker(ctx, part, w), 60 if ctx.quick else 400, st)
        return
    with driver_for(ctx, part) as drv:
        yield from check_cases(ctx, part, drv, maker(ctx, part, drv), 400 if ctx.quick else 2500, st)


def replay(ctx, info):
    if isinstance(info["part"], str):
        with Work() as w:
            return cli_maker(ctx, info["part"], w)(Src(replay=info["choices"])).judge()
    return replay_driver(__import__(__name__, fromlist=["x"]), ctx, info)
