"""C19: the compiler used as a library gives the content of the schema, whatever else it processes."""
import os
import struct
from .common import *
from .. import build, protoref
from ..driver import HARNESS, SAN_ENV, summary
from . import c10, c11

RULE = ("a case is a list of 1 to 8 texts (valid schemas in random spelling and damaged ones, some repeated) that one process parses and generates code for, one after the other or each in "
        "a thread (ThreadSanitizer); the tree of every valid text is compared with the model, and every tree, code or error with what a fresh process gives for that text alone; "
        "non-trivial: at least two texts, one of them a valid schema with a field; distinct by texts and settings")
ASSUMPTIONS = ["options given more than once count once, with the last value", "races are what ThreadSanitizer sees in the executed interleavings"]

TYPE_IDS = dict((t, 6 + i) for i, t in enumerate("double float int32 int64 uint32 uint64 sint32 sint64 fixed32 fixed64 sfixed32 sfixed64 bool string bytes".split()))
HARNESS_FILE = os.path.join(HARNESS, "tree.cc")


def partitions(ctx):
    return list(range(16 if ctx.quick else 160))


def prepare(ctx):
    for kind in ("plain", "tsan", "san"):
        build.with_library(kind, HARNESS_FILE, "tree")


def hexed(b):
    return "x" + (b if isinstance(b, bytes) else raw_text(b)).hex()


def option_value(v):
    """(type, value) of an option value token"""
    if v.startswith('"'):
        return 1, raw_text(v[1:-1])
    if v[0].isdigit():
        return 2, v.encode()
    if v in ("true", "false"):
        return 3, v.encode()
    return 0, raw_text(v)


def expected_tree(toks, name):
    """The tree of a valid token sequence, in the form the harness prints it."""
    package = ""
    top = {}
    msgs = []
    cur = None
    i = 0
    while i < len(toks):
        t = toks[i]
        if cur is None and t == "syntax":
            i += 4
        elif cur is None and t == "package":
            package = toks[i + 1]
            i += 3
        elif t == "option" and toks[i + 2] == "=" and toks[i + 4] == ";":
            (top if cur is None else cur["options"])[toks[i + 1]] = toks[i + 3]
            i += 5
        elif cur is None:
            cur = {"name": toks[i + 1], "fields": [], "options": {}}
            msgs.append(cur)
            i += 3
        elif t == "}":
            cur = None
            i += 1
        else:
            label = ""
            if t in ("repeated", "optional"):
                label = t
                i += 1
            f = {"label": label, "type": toks[i], "name": toks[i + 1], "number": int(toks[i + 3]), "options": {}}
            cur["fields"].append(f)
            i += 4
            if toks[i] == "[":
                i += 1
                while toks[i] != "]":
                    if toks[i] == ",":
                        i += 1
                    f["options"][toks[i]] = toks[i + 2]
                    i += 3
                i += 1
            i += 1
    out = []

    def options(o):
        for k in sorted(o, key=lambda x: x.encode()):
            typ, val = option_value(o[k])
            out.append("O %s %s %d %s" % (hexed(k), hexed(k), typ, hexed(val)))
    options(top)
    out.append("N " + hexed(name))
    byname = dict((m["name"], j) for j, m in enumerate(msgs))
    for m in msgs:
        out.append("M %s %s %s" % (hexed(m["name"]), hexed(package), hexed(package + "." + m["name"] if package else m["name"])))
        options(m["options"])
        for f in m["fields"]:
            if f["type"] in TYPE_IDS:
                typ, ref = TYPE_IDS[f["type"]], -1
            else:
                n = f["type"]
                if package and n.startswith(package + ".") and n not in byname:
                    n = n[len(package) + 1:]
                typ, ref = 21, byname[n]
            out.append("F %d %d %d %d %s %d" % (typ, ref, f["label"] == "repeated", f["label"] == "optional", hexed(f["name"]), f["number"]))
            options(f["options"])
    return out


def gen_text(src):
    """(kind, text, tokens or None)"""
    if src.bool(2, 3):
        s = S.gen_schema(src, max_msgs=src.pick([3, 6, 2]), max_fields=src.pick([5, 9, 2]), wide=src.bool(1, 20), deep=src.bool(1, 20))
        toks = c10.variant_tokens(src, s, src.pick([set(["options", "order"]), set(), set(["optional", "qualified"]), set(["options", "order", "optional", "qualified"])]))
        text = raw_text(c10.layout(src, toks) if src.bool() else S.layout(src, toks) if src.bool() else S.render(s, toks))
        return "valid", text, toks
    kind, text = c11.make_text(src)
    return kind, text, None


NAMES = ["a.proto", "", "/x/y/schema.proto", "dir with space/é.proto", "a_b.proto", "A.proto", "a\nb.proto", "x" * 300, "$1$.proto", "a.b.c"]


def run_case(exe, threads, steps):
    data = struct.pack("<I", len(steps)) + b"".join(struct.pack("<I", len(t)) + t + struct.pack("<I", len(n)) + n + struct.pack("<I", f) for t, n, f in steps)
    env = dict(build.ENV)
    env.update(SAN_ENV)
    env["TSAN_OPTIONS"] = "exitcode=66:halt_on_error=1"
    import tempfile
    with tempfile.TemporaryFile() as f:
        f.write(data)
        f.seek(0)
        return build.run([exe] + (["threads"] if threads else []), timeout=100, mem=0, cpu=100, env=env, stdin=f)


def parse_reply(out, n):
    res = []
    at = 0
    for _ in range(2 * n):
        k, = struct.unpack_from("<I", out, at)
        res.append(out[at + 4:at + 4 + k].decode())
        at += 4 + k
    return list(zip(res[::2], res[1::2]))


def brief(lines):
    """Readable form of dumped lines."""
    def word(w):
        return repr(bytes.fromhex(w[1:]).decode("utf-8", "replace"))[:80] if w.startswith("x") else w
    return [" ".join(word(w) for w in l.split(" ")) for l in lines][:6]


def differs(a, b):
    la, lb = a.split("\n"), b.split("\n")
    i = next((i for i, (x, y) in enumerate(zip(la, lb)) if x != y), min(len(la), len(lb)))
    x, y = la[i:i + 1], lb[i:i + 1]
    if x and y and x[0][:2] == y[0][:2] == "G ":
        ga, gb = (bytes.fromhex(z[0][3:]).split(b"\n") for z in (x, y))
        j = next((j for j, (p, q) in enumerate(zip(ga, gb)) if p != q), min(len(ga), len(gb)))
        return "line %d of the code is %s instead of %s" % (j + 1, short(b"".join(gb[j:j + 1]), 150), short(b"".join(ga[j:j + 1]), 150))
    return "%s instead of %s" % (brief(y), brief(x))


def maker(ctx, part, tag=""):
    # a quarter of the partitions runs threads, another under the address and undefined sanitizers
    threads = part % 4 == 3
    exe = build.with_library("tsan" if threads else "san" if part % 4 == 1 else "plain", HARNESS_FILE, "tree")

    def make(src):
        steps, info = [], []
        n = src.int(2, 4) if threads else src.size(2.5, 7) + 1
        for _ in range(n):
            if steps and src.bool(1, 4):
                # the same again, perhaps with another name or other settings
                j = src.draw(len(steps))
                kind, text, toks = info[j]
            else:
                kind, text, toks = gen_text(src)
            name = raw_text(src.pick(NAMES)) if src.bool() else b"schema.proto"
            steps.append((text, name, src.draw(32) if src.bool(2, 3) else 0))
            info.append((kind, text, toks))

        def judge():
            r = run_case(exe, threads, steps)
            if r.timeout:
                return "the library hangs"
            if r.rc:
                err = r.err.decode("utf-8", "replace")
                return "the library %s: %s" % ("is killed by signal %d" % -r.rc if r.rc < 0 else "fails (status %d)" % r.rc, (summary(err) or err.strip())[:600])
            res = parse_reply(r.out, n)
            for k, ((base, got), (text, name, flags), (kind, _, toks)) in enumerate(zip(res, steps, info)):
                for what, x in (("alone", base), ("after or beside others", got)):
                    lines = x.split("\n")
                    if "DIED" in lines:
                        return "text %d %s ends the process" % (k, what)
                    if "FLAGS" in lines:
                        return "the formatting flags of the stream are not restored (text %d)" % k
                    if "AGAIN" in lines:
                        return "generating again from the same tree gives other code (text %d)" % k
                if base != got:
                    return "text %d %s gives another result than alone: %s" % (k, "in a thread" if threads else "after others", differs(base, got))
                if toks is not None:
                    want = expected_tree(toks, name)
                    lines = base.split("\n")[:-1]
                    code = [l for l in lines if l.startswith("G ")]
                    lines = [l for l in lines if not l.startswith("G ")]
                    if lines != want:
                        i = next((i for i, (p, q) in enumerate(zip(lines, want)) if p != q), min(len(lines), len(want)))
                        return "the tree of text %d has %s instead of %s" % (k, brief(lines[i:i + 2]), brief(want[i:i + 2]))
                    if len(code) != 1:
                        return "no code for text %d" % k
            return None
        key = repr((threads, steps)).encode()
        good = n > 1 and any(k == "valid" and b"=" in t[20:] for k, t, _ in info)
        return Plain(key, good, {"threads": threads, "steps": [{"kind": i[0], "text": s[0].decode("utf-8", "backslashreplace"), "name": s[1].decode("utf-8", "backslashreplace"), "flags": s[2]} for s, i in zip(steps, info)]},
                     judge, ["threads" if threads else "sequence"] + [i[0] if i[0] == "valid" else "damaged" for i in info])
    return make


def run_part(ctx, part, st):
    n = (25 if part % 4 == 3 else 60 if part % 4 == 1 else 120) if ctx.quick else (150 if part % 4 == 3 else 300 if part % 4 == 1 else 700)
    yield from plain_cases(ctx, part, maker(ctx, part), n, st)


def replay(ctx, info):
    prepare(ctx)
    return maker(ctx, info["part"])(Src(replay=info["choices"])).judge()
