"""C13: schema variants interoperate; representation options leave JSON alone."""
import copy
from ..core import shrink
from .common import *
from . import c02

RULE = ("a case is one value written by the classes of a schema and by those of a variant of it (obfuscation, lists, order of messages and fields, field names with the same JSON name, "
        "field numbers), each text read by the other's classes and by those of a schema with fewer and more fields; non-trivial: at least two present non-transient leaves; "
        "distinct by the texts of the schemas and the value. For obfuscated schemas the header is searched for every custom name")
ASSUMPTIONS = ["JSON is compared byte for byte or, where fields are renamed, as parsed members (order is free) with numbers as written",
               "names searched for are six or more letters that occur nowhere else in the schema"]


def partitions(ctx):
    return list(range(16 if ctx.quick else 140))


class Map:
    """How the messages and fields of one schema appear in another."""

    def __init__(self, a, b, fields):
        self.a, self.b = a, b
        self.fields = fields        # id(field of a) -> field of b or None
        self.msgs = {}              # id(message of a) -> message of b

    def value(self, ma, v):
        mb = self.msgs[id(ma)]
        out = V.empty_msg(mb)
        for f, x in zip(ma.fields, v):
            g = self.fields.get(id(f))
            if g is None:
                continue
            j = mb.fields.index(g)
            if f.kind == "message":
                out[j] = [self.value(f.ref, e) for e in x] if f.repeated else self.value(f.ref, x)
            else:
                out[j] = V.copy_value(x)
        return out


def clone(a):
    """A copy of a schema with the identity mapping."""
    b = copy.deepcopy(a)
    mp = Map(a, b, {})
    for x, y in zip(a.messages, b.messages):
        mp.msgs[id(x)] = y
        for f, g in zip(x.fields, y.fields):
            mp.fields[id(f)] = g
    return b, mp


def renumber(s):
    for i, m in enumerate(s.messages):
        m.idx = i


def marker(src, used):
    while True:
        w = "".join(src.pick("bcdfghjklmnpqrstvwxyz") for _ in range(src.int(7, 16)))
        if w not in used:
            used.add(w)
            return w


def base(ctx, part):
    src = ctx.src("schema", part)
    s = S.gen_schema(src, max_msgs=4, max_fields=8, wide=part % 8 == 5, deep=part % 16 == 9)
    if part % 4 != 3:
        s.number_names = None
    # names that are close to each other
    for m in s.messages:
        names = set(f.name for f in m.fields) | {m.name} | set(s.jname(f) for f in m.fields)
        nums = set(f.number for f in m.fields)
        for f in list(m.fields):
            if len(m.fields) < 64 and src.bool(1, 3):
                k = src.draw(len(f.name))
                n = src.pick([f.name[:k] + f.name[k].swapcase() + f.name[k + 1:], f.name + "_", f.name + "1", f.name.upper()])
                if n not in names and not S.bad_name(n):
                    names.add(n)
                    m.fields.insert(src.draw(len(m.fields) + 1), S.Field("", src.pick(["int32", "string"]), n, S.field_number(src, nums)))
    used = set()
    for m, f in s.fields():
        if src.bool(1, 5):
            f.json_name = marker(src, used)
    return s, used


def variant(ctx, part, a):
    src = ctx.src("variant", part)
    b, mp = clone(a)
    done = []
    for what in ("obfuscate", "lists", "messages", "fields", "rename", "renumber"):
        if what == "rename" and part % 2:
            continue
        if not src.bool(3, 5) and not (what == "obfuscate" and part % 2 == 0) and not (what == "lists" and part % 3 == 0):
            continue
        done.append(what)
        if what == "obfuscate":
            b.obfuscate = not a.obfuscate
        elif what == "lists":
            b.use_lists = not a.use_lists
        elif what == "messages":
            b.messages = src.shuffle(b.messages)
        elif what == "fields":
            for m in b.messages:
                m.fields = src.shuffle(m.fields)
        elif what == "rename":
            for m in b.messages:
                jnames = set(f.name if f.json_name is None else f.json_name for f in m.fields)
                taken = set(f.name for f in m.fields) | jnames
                for f in m.fields:
                    if f.json_name is None and "'" in f.name:
                        continue
                    if src.bool():
                        new = S.field_name(src, taken)
                        if new == m.name:
                            continue
                        if f.json_name is None:
                            f.json_name = f.name
                        f.name = new
        elif what == "renumber" and not a.number_names:
            for m in b.messages:
                nums = set()
                for f in m.fields:
                    f.number = S.field_number(src, nums)
    renumber(b)
    return b, mp, done


def subset(ctx, part, a):
    src = ctx.src("subset", part)
    b, mp = clone(a)
    for m in b.messages:
        keep = []
        jnames = set(a.jname(f) for f in m.fields)
        nums = set(f.number for f in m.fields)
        names = set(f.name for f in m.fields) | {m.name} | jnames
        for f in m.fields:
            if src.bool(1, 3):
                for k, g in list(mp.fields.items()):
                    if g is f:
                        del mp.fields[k]
            else:
                keep.append(f)
        m.fields = keep
        for _ in range(src.draw(3)):
            if len(m.fields) >= 60:
                break
            t = src.pick(S.SCALARS)
            new = S.Field(src.pick(["", "repeated"]), t, S.field_name(src, names), S.field_number(src, nums))
            m.fields.insert(src.draw(len(m.fields) + 1), new)
    if src.bool():
        b.obfuscate = not a.obfuscate
    if src.bool():
        b.use_lists = not a.use_lists
    renumber(b)
    return b, mp


def canon(x):
    if isinstance(x, c02.Obj):
        return ("obj", sorted((n, canon(v)) for n, v in x.pairs))
    if isinstance(x, c02.Num):
        return ("num", x.text)
    if isinstance(x, list):
        return ("arr", [canon(v) for v in x])
    return (type(x).__name__, x)


class Trio:
    def __init__(self, ctx, part):
        self.a, used = base(ctx, part)
        self.b, self.mab, self.done = variant(ctx, part, self.a)
        self.c, self.mac = subset(ctx, part, self.a)
        self.da = self.db = self.dc = None
        self.leaks = []
        try:
            self.da = Driver(self.a)
            self.db = Driver(self.b)
            self.dc = Driver(self.c)
            for d in (self.da, self.db, self.dc):
                if not d.s.obfuscate:
                    continue
                with open(d.header, encoding="utf-8", errors="replace") as f:
                    text = f.read()
                for m, f in d.s.fields():
                    n = f.json_name
                    if n in used and not f.transient and f.name != n and n in text and not any(n in g.name or n in x.name for x, g in d.s.fields()):
                        self.leaks.append((n, d.text))
        except BaseException:
            self.close()
            raise

    def close(self):
        for d in (self.da, self.db, self.dc):
            if d:
                d.close()

    def gen(self, src):
        m = src.pick(self.a.messages)
        v = V.gen_msg(src, m, present=src.pick([(2, 3), (9, 10), (1, 3)]))
        mode, asc, null = params(src)
        return m, v, (mode, asc, null), src.draw(5)

    def judge(self, cases):
        """Messages (or None) of a list of cases."""
        out = [None] * len(cases)

        def phase(drv, build_ops):
            ops = []
            for c in cases:
                o = Ops(drv.s)
                build_ops(o, c)
                ops.append(o)
            res = []
            for o, r in zip(ops, drv.run([o.data() for o in ops])):
                if r is None or not isinstance(r, bytes):
                    res.append(r)
                else:
                    res.append(o.decode(r))
            return res

        def write(mp):
            def f(o, c):
                m, v, (mode, asc, null), source = c
                m2 = mp.msgs[id(m)] if mp else m
                o.set(m2, 0, mp.value(m, v) if mp else v)
                o.ser(m2, 0, 0, mode, asc, null)
            return f

        def read(texts, mp):
            it = iter(texts)

            def f(o, c):
                m, v, (mode, asc, null), source = c
                m2 = mp.msgs[id(m)] if mp else m
                o.new(m2, 0)
                o.des(m2, 0, next(it), source, 1, asc, null)
                o.dump(m2, 0)
            return f

        def texts(res):
            return [r[0]["out"] if isinstance(r, list) and r[0]["ok"] else b"{}" for r in res]
        wa, wb = phase(self.da, write(None)), phase(self.db, write(self.mab))
        ta, tb = texts(wa), texts(wb)
        ra, rb, rc = phase(self.da, read(tb, None)), phase(self.db, read(ta, self.mab)), phase(self.dc, read(ta, self.mac))
        for i, c in enumerate(cases):
            m, v, _, _ = c
            for r in (wa[i], wb[i], ra[i], rb[i], rc[i]):
                if r is None:
                    break
                if not isinstance(r, list):
                    out[i] = "crash: %s" % r.why
                    break
            else:
                out[i] = self.one(m, v, wa[i][0], wb[i][0], ra[i], rb[i], rc[i])
        return out

    def one(self, m, v, wa, wb, ra, rb, rc):
        if not wa["ok"] or not wb["ok"]:
            return "serialisation fails: %r %r" % (wa["err"], wb["err"])
        try:
            ja, jb = canon(c02.parse(wa["out"])), canon(c02.parse(wb["out"]))
        except ValueError as e:
            return "the text is not JSON (%s): %s %s" % (e, short(wa["out"]), short(wb["out"]))
        if ja != jb:
            return "the variant (%s) writes other JSON: %s instead of %s" % (", ".join(self.done), short(wb["out"]), short(wa["out"]))
        if "rename" not in self.done and wa["out"] != wb["out"]:
            return "the variant (%s) writes another text: %s instead of %s" % (", ".join(self.done), short(wb["out"]), short(wa["out"]))
        bare = V.drop_transient(m, v)
        for who, r, want, text in (("the schema", ra, bare, wb["out"]), ("the variant (%s)" % ", ".join(self.done), rb, self.mab.value(m, bare), wa["out"]),
                                   ("a schema with fewer and more fields", rc, self.mac.value(m, bare), wa["out"])):
            if not r[0]["ok"]:
                return "%s does not read the text of the other: %s %r" % (who, short(text), r[0]["err"])
            if not V.same(want, r[1]):
                return "%s reads %s as %s instead of %s" % (who, short(text), short(r[1]), short(want))
        return None


def run_part(ctx, part, st):
    t = Trio(ctx, part)
    try:
        for n, text in t.leaks[:1]:
            yield Violation("the JSON name '%s' appears in plain text in the header of a schema with obfuscated strings" % n, {"part": part, "schema": text})
        import hashlib
        n = 300 if ctx.quick else 1500
        srcs = [ctx.src("case", part, i) for i in range(n)]
        cases = [t.gen(s) for s in srcs]
        whys = t.judge(cases)
        for s, c, w in zip(srcs, cases, whys):
            st.count((t.da.text + t.db.text + repr((c[0].name, c[1]))).encode("utf-8", "surrogateescape"), weight(c[0], c[1]) >= 2)
            for d in t.done:
                st.label(d)
        st.sample({"schema": t.da.text, "variant": t.db.text, "value": short(cases[0][1])}, 1)
        bad = [(s, c, w) for s, c, w in zip(srcs, cases, whys) if w]
        if bad:
            s, c, w = bad[0]
            last = [c, w]

            def fails(ch):
                q = Src(replay=ch)
                d = t.gen(q)
                x = t.judge([d])[0]
                if x is None:
                    return None
                last[0], last[1] = d, x
                return q.rec
            best = shrink(s.rec, fails, max_evals=300, max_seconds=25)
            if fails(best) is None:
                best = s.rec
                if fails(best) is None:
                    st.label("not reproducible")
                    return
            yield Violation(last[1], {"part": part, "choices": list(best), "schema": t.da.text, "variant": t.db.text, "reader": t.dc.text, "message": last[0][0].name, "value": short(last[0][1])})
    finally:
        t.close()


def replay(ctx, info):
    t = Trio(ctx, info["part"])
    try:
        return t.judge([t.gen(Src(replay=info["choices"]))])[0]
    finally:
        t.close()
