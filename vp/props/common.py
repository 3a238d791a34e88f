"""Shared pieces of the property modules."""
from .. import schema as S, values as V
from ..driver import Driver, Ops, Case, check_cases, verdict
from ..core import Src, Violation, seed_of

HEADER_PROPS = "g++ -O0 drivers compiled from the header that protogen generates for the schema"


def schema_of(ctx, part, **kw):
    if isinstance(part, int):
        kw.setdefault("deep", part % 24 == 10)
    return S.gen_schema(ctx.src("schema", part), **kw)


def replay_driver(mod, ctx, info, **kw):
    """Re-executes one reported case. Returns its message or None."""
    part = info["part"]
    with mod.driver_for(ctx, part) as drv:
        src = Src(replay=info["choices"])
        c = mod.maker(ctx, part, drv, info.get("tag", ""))(src)
        return verdict(c, drv.run([c.ops.data()])[0])


def params(src):
    """(mode, ensure_ascii, serialize_null)"""
    mode = src.weighted([(2, 0), (4, 1), (1, 2)])
    return mode, mode > 0 and src.bool(), mode > 0 and src.bool()


def short(x, n=400):
    r = repr(x)
    return r if len(r) <= n else r[:n] + "..."


def clean(err):
    """Error information after a successful call."""
    return err is None or (err["code"] == 0 and err["line"] == 0 and err["col"] == 0 and err["msg"] == b"")


def weight(m, v):
    """Number of present leaves."""
    n = 0
    for f, x in zip(m.fields, v):
        if f.transient or V.is_absent(f, x):
            continue
        if f.kind == "message":
            n += sum(1 + weight(f.ref, e) for e in x) if f.repeated else weight(f.ref, x)
        else:
            n += len(x) if f.repeated else 1
    return n


def with_null_elements(src, m, v):
    """Turns some elements of repeated string fields into absent ones."""
    for f, x in zip(m.fields, v):
        if f.repeated and f.kind == "string" and src.bool(1, 8):
            for i in range(len(x)):
                if src.bool(1, 3):
                    x[i] = None
    return v


def poison_utf8(src, v):
    """Makes a byte string invalid UTF-8."""
    bad = src.pick([b"\x80", b"\xff", b"\xc0\xaf", b"\xc1\xbf", b"\xed\xa0\x80", b"\xed\xbf\xbf", b"\xf4\x90\x80\x80", b"\xf5\x80\x80\x80", b"\xe0\x80\x80",
                    b"\xe0\x9f\xbf", b"\xf0\x80\x80\x80", b"\xf0\x8f\xbf\xbf", b"\xc3", b"\xe2\x82", b"\xf0\x9f\x98", b"\xc3(", b"\xe2(\xa1", b"\xe2\x82(",
                    b"\xf0(\x8c\xbc", b"\xf0\x90(\xbc", b"\xf0\x28\x8c\x28", b"\xfe", b"\xf8\x88\x80\x80\x80", b"\xfc\x84\x80\x80\x80\x80", b"\xbf\xbf", b"\xe9"])
    i = 0
    if src.bool():
        # at a character boundary
        cut = [k for k in range(len(v) + 1) if k == len(v) or (v[k] & 0xc0) != 0x80]
        i = src.pick(cut)
    else:
        i = src.draw(2) * len(v)
    out = v[:i] + bad + v[i:]
    try:
        out.decode("utf-8")
        return out + b"\xff"
    except UnicodeDecodeError:
        return out


class Work:
    """A scratch directory that lives as long as the partition."""

    def __enter__(self):
        import tempfile
        self.dir = tempfile.mkdtemp(prefix="vp-drv-")
        return self.dir

    def __exit__(self, *a):
        import shutil
        shutil.rmtree(self.dir, ignore_errors=True)


class Plain:
    """A case that needs no driver: judge() -> None or a message."""

    def __init__(self, key, nontrivial, describe, judge, labels=()):
        self.key, self.nontrivial, self.describe, self.judge, self.labels = key, nontrivial, describe, judge, labels


def plain_cases(ctx, part, make, n, st, tag="", max_seconds=25, stop=1):
    """Generates n cases with make(src) -> Plain, judges them and yields shrunk violations."""
    from ..core import shrink
    found = 0
    for i in range(n):
        src = Src(seed_of(ctx.seed, ctx.prop, part, tag, i))
        c = make(src)
        why = c.judge()
        st.count(c.key, c.nontrivial)
        for l in c.labels:
            st.label(l)
        if why is None:
            if i == n // 2:
                st.sample(c.describe, 1)
            continue
        last = [c, why]

        def fails(ch):
            q = Src(replay=ch)
            d = make(q)
            w = d.judge()
            if w is None:
                return None
            last[0], last[1] = d, w
            return q.rec
        best = shrink(src.rec, fails, max_evals=1500, max_seconds=max_seconds)
        if not all(fails(best) is not None for _ in range(3)):
            best = src.rec
            if not all(fails(best) is not None for _ in range(3)):
                st.label("not reproducible: " + why[:60])
                continue
        yield Violation(last[1], {"part": part, "tag": tag, "choices": list(best), "case": last[0].describe})
        found += 1
        if found >= stop:
            return


def raw_text(t):
    return t.encode("utf-8", "surrogateescape") if isinstance(t, str) else t
