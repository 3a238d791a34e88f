"""C10: the spelling of a schema does not matter, only its content."""
import copy
import os
from .common import *
from .. import build

RULE = ("a case is one generated schema and one other spelling of it (layout and comments of the token sequence, line endings, optional labels, options the compiler "
        "does not know, order of options, plain or qualified type names), compiled from the same path; the outputs must be the same bytes; "
        "non-trivial: the texts differ and the schema has at least one field; distinct by both texts")
ASSUMPTIONS = ["white space is space, tab, line feed and carriage return; a line comment ends at a line feed"]

UNKNOWN_NAMES = ["deprecated", "java_package", "optimize_for", "packed", "level", "some.nested.option", "json_name", "Transient", "names", "nam", "name_", "obfuscate_string", "number_name",
                 "cpp_use_list", "x", "cc_generic_services", "go_package", "transient_", "lists", "objc_class_prefix", "message_set", "a.b.c.d", "x.name", "my.transient", "a.b.obfuscate_strings", "c.number_names",
                 "d.cpp_use_lists", "name.x", "transient.y", "number_names.z", "NAME", "Name", "TRANSIENT", "Obfuscate_Strings", "ame", "_name", "_transient"]
# options that mean something only in other places
MISPLACED = {"file": [("name", '"other"'), ("transient", "true"), ("transient", "false")],
             "message": [("name", '"other"'), ("transient", "true"), ("obfuscate_strings", "true"), ("number_names", "true"), ("cpp_use_lists", "true"), ("number_names", "false")],
             "field": [("obfuscate_strings", "true"), ("number_names", "true"), ("cpp_use_lists", "true"), ("cpp_use_lists", "false")]}
UNKNOWN_VALUES = ["true", "false", '"x"', '""', "42", "0", "SPEED", "a.b.c", '"with // no comment"', '"/* nor this"', '"; } message"', '"\'"', '"\\"', '"é日本"', '"tab\there"', "truex", "false_",
                  "123456789012345678901234567890", "_x"]
BODIES = S.COMMENT_BODIES + ["\udcff", "\udc80\udcfe", "x" * 300, "* * *", "message", "'", "%s $1$", "\x01\x02", "ÿ", "\\n", "]", "/**"]


def gap(src, need, last):
    out = ""
    for _ in range(src.size(0.7, 5)):
        k = src.draw(10)
        if k < 3:
            out += src.pick([" ", "\n", "\t", "\r\n", "  ", "\n\n", " \t ", "\r"])
        elif k < 4:
            out += src.pick([" ", "\n", "\t", "\r\n", "\r\n\t"]) * src.pick([3, 40, 600])
        elif k < 7:
            body = src.pick(BODIES)
            if src.bool(1, 100):
                body += src.pick(["x", "*", "é", "\n", "\r\n"]) * src.pick([256, 1024, 4095, 4096, 65535, 65536, 70000])
            while "*/" in body:
                body = body.replace("*/", "*")
            if src.bool(1, 4):
                body += src.pick(["\n", "\r\n", "\n//", "\n * ", " *", "**"]) + (src.pick(BODIES).replace("*/", "") if src.bool(1, 2) else "")
            # a body that ends in '*' closes the comment earlier, with the same effect
            while "*/" in body:
                body = body.replace("*/", "*")
            out += "/*" + body + "*/"
        else:
            body = src.pick(BODIES)
            if src.bool(1, 100):
                body += src.pick(["x", "/", "é", " "]) * src.pick([256, 1024, 4095, 4096, 65535, 65536, 70000])
            out += "//" + body + src.pick(["\n", "\r\n", "\n\n", "*/\n", "\\\n"])
    if need and not out:
        out = src.pick([" ", "\n", "\t", "\r\n", "/**/", "// c\n", "/***/", "/*/*/", "//\n"])
    if last and src.bool(1, 3):
        out += "//" + src.pick(BODIES) + src.pick(["", "\r"])
    return out


def layout(src, toks):
    out = [gap(src, False, not toks)]
    dense = src.draw(4)
    for i, t in enumerate(toks):
        out.append(t)
        nxt = toks[i + 1] if i + 1 < len(toks) else ""
        need = bool(nxt) and S.wordy(t[-1]) and S.wordy(nxt[0])
        if dense == 1 and nxt:
            # nothing that is not needed
            out.append(" " if need else "")
        else:
            out.append(gap(src, need, not nxt))
    return "".join(out)


def unknown(src, where):
    if src.bool(1, 6):
        return src.pick(MISPLACED[where])
    return src.pick(UNKNOWN_NAMES), src.pick(UNKNOWN_VALUES)


def variant_tokens(src, s, what):
    """Tokens of another spelling of the same schema. what: set of the differences allowed."""
    s = copy.deepcopy(s)
    if "optional" in what:
        for _, f in s.fields():
            if f.label != "repeated":
                f.label = src.pick(["", "optional"])
    if "qualified" in what and s.package:
        for _, f in s.fields():
            if f.ref is not None:
                f.qualify = src.bool()

    def extra(opts, where):
        """Mixes unknown options in."""
        if "options" not in what:
            return opts
        opts = list(opts)
        for _ in range(src.size(0.6, 4)):
            opts.insert(src.draw(len(opts) + 1), unknown(src, where))
        return opts
    out = ["syntax", "=", '"proto3"', ";"]
    if s.package:
        out += ["package", s.package, ";"]
    top = [(n, "true" if v else "false") for n, v in (("obfuscate_strings", s.obfuscate), ("number_names", s.number_names), ("cpp_use_lists", s.use_lists)) if v is not None]
    base_unknown = [] if "options" in what and src.bool() else list(s.options)
    top = extra(top + base_unknown, "file")
    if "order" in what:
        top = src.shuffle(top)
    late = [o for o in top if src.bool(1, 3)] if "order" in what else []
    slots = [[] for _ in range(len(s.messages) + 1)]
    for o in late:
        slots[src.draw(len(slots))].append(o)
    for o in top:
        if o not in late:
            slots[0].insert(len([x for x in slots[0] if x not in late]), o)
    for i, m in enumerate(s.messages):
        for n, v in slots[i]:
            out += ["option", n, "=", v, ";"]
        out += ["message", m.name, "{"]
        mopts = extra([] if "options" in what and src.bool() else m.options, "message")
        where = [src.draw(len(m.fields) + 1) if "order" in what else 0 for _ in mopts]
        for j in range(len(m.fields) + 1):
            for (n, v), w in zip(mopts, where):
                if w == j:
                    out += ["option", n, "=", v, ";"]
            if j == len(m.fields):
                break
            f = m.fields[j]
            ft = S.field_tokens(s, f)
            if "options" in what or "order" in what:
                cut = ft.index("[") if "[" in ft else len(ft) - 1
                fopts = []
                if f.transient is not None:
                    fopts.append(("transient", "true" if f.transient else "false"))
                if f.json_name is not None:
                    fopts.append(("name", S.quote(f.json_name)))
                if not ("options" in what and src.bool()):
                    fopts += [o for o in f.options]
                fopts = extra(fopts, "field")
                if "order" in what:
                    fopts = src.shuffle(fopts)
                ft = ft[:cut]
                if fopts:
                    ft.append("[")
                    for k, (n, v) in enumerate(fopts):
                        ft += ([","] if k else []) + [n, "=", v]
                    ft.append("]")
                ft.append(";")
            out += ft
        out.append("}")
    for n, v in slots[-1]:
        out += ["option", n, "=", v, ";"]
    return out


def compile_at(path, text):
    with open(path, "wb") as f:
        f.write(raw_text(text))
    return build.run([build.exe(), path], timeout=60)


def maker(ctx, part, work):
    path = os.path.join(work, "schema.proto")
    kinds = ["layout", "optional", "options", "qualified", "order"]

    def make(src):
        s = S.gen_schema(src, max_msgs=src.pick([3, 5]), max_fields=src.pick([4, 10]), wide=src.bool(1, 30), deep=src.bool(1, 30))
        a = S.render(s)
        k = src.draw(8)
        what = set([kinds[k]] if k < 5 else kinds if k < 7 else [x for x in kinds if src.bool()])
        toks = variant_tokens(src, s, what)
        b = layout(src, toks) if "layout" in what else S.render(s, toks)

        def judge():
            ra = compile_at(path, a)
            if ra.timeout or ra.rc:
                return "a valid schema is refused: " + ra.err.decode(errors="replace").strip()[:300]
            rb = compile_at(path, b)
            if rb.timeout:
                return "another spelling of the schema (%s) makes the compiler hang" % ", ".join(sorted(what))
            if rb.rc:
                return "another spelling of the schema (%s) is refused: %s" % (", ".join(sorted(what)), rb.err.decode(errors="replace").strip()[:300])
            if ra.out != rb.out:
                la, lb = ra.out.split(b"\n"), rb.out.split(b"\n")
                i = next((i for i, (x, y) in enumerate(zip(la, lb)) if x != y), min(len(la), len(lb)))
                return "another spelling of the schema (%s) gives other code: line %d is %s instead of %s" % (
                    ", ".join(sorted(what)), i + 1, short(b"\n".join(lb[i:i + 1]), 200), short(b"\n".join(la[i:i + 1]), 200))
            return None
        return Plain(a.encode("utf-8", "surrogateescape") + b"\0" + raw_text(b), a != b and any(m.fields for m in s.messages),
                     {"schema": a, "other": b}, judge, sorted(what))
    return make


def partitions(ctx):
    return list(range(16 if ctx.quick else 160))


def prepare(ctx):
    build.exe()


def run_part(ctx, part, st):
    with Work() as work:
        yield from plain_cases(ctx, part, maker(ctx, part, work), 250 if ctx.quick else 1200, st)


def replay(ctx, info):
    with Work() as work:
        return maker(ctx, info["part"], work)(Src(replay=info["choices"])).judge()
