"""Reference recogniser of the .proto language that protogen documents: accepted, refused (and where), or left open.

The text is bytes. Problems are 'hard' (the text is outside the language) or 'soft' (proto3 or a reasonable reader of the README may
see it either way). The verdict is 'ok' without problems, 'reject' with a hard problem, 'any' with soft ones only. Each problem
carries the places where a diagnostic may point to.
"""
import re

KEYWORDS = set(b"""message repeated string enum double float bool int32 int64 uint32 uint64 sint32 sint64 fixed32 fixed64 sfixed32
sfixed64 bytes package syntax map option true false optional""".split())
SCALARS = set(b"string double float bool int32 int64 uint32 uint64 sint32 sint64 fixed32 fixed64 sfixed32 sfixed64 bytes".split())
CPP_KEYWORDS = set(b"""alignas alignof and and_eq asm auto bitand bitor bool break case catch char char16_t char32_t class compl
const constexpr const_cast continue decltype default delete do double dynamic_cast else enum explicit export extern false float
for friend goto if inline int long mutable namespace new noexcept not not_eq nullptr operator or or_eq private protected public
register reinterpret_cast return short signed sizeof static static_assert static_cast struct switch template this thread_local
throw true try typedef typeid typename union unsigned using virtual void volatile wchar_t while xor xor_eq""".split())
MEMBERS = set(b"value_type serializer_type serialize deserialize clear empty equal swap".split())
LETTER = set(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_")
DIGIT = set(b"0123456789")


class Tok:
    __slots__ = ("kind", "val", "pos", "end", "note")

    def __init__(self, kind, val, pos, end, note=None):
        # kind: name, qname, int, str, sym, eof, bad
        self.kind, self.val, self.pos, self.end, self.note = kind, val, pos, end, note


class Stop(Exception):
    pass


class Problem:
    __slots__ = ("what", "hard", "points", "lines")

    def __init__(self, what, hard, points=(), lines=None):
        self.what, self.hard = what, hard
        self.points = list(points)      # byte offsets
        self.lines = lines              # [(first offset, last offset)]: any place in the lines of these constructs


class Verdict:
    def __init__(self, text, problems):
        self.text = text
        self.problems = problems
        self.hard = [p for p in problems if p.hard]
        self.kind = "reject" if self.hard else "any" if problems else "ok"

    def line_of(self, off):
        return self.text.count(b"\n", 0, off) + 1

    def places(self, off):
        """Acceptable (line, column) of an offset: columns in bytes or in characters."""
        start = self.text.rfind(b"\n", 0, off) + 1
        pre = self.text[start:off]
        out = {(self.line_of(off), off - start + 1)}
        out.add((self.line_of(off), len(pre.decode("utf-8", "replace")) + 1))
        return out

    def located(self, line, col):
        """The diagnostic points to one of the problems."""
        for p in self.problems:
            for off in p.points:
                if (line, col) in self.places(off):
                    return True
            for a, b in p.lines or ():
                if self.line_of(a) <= line <= self.line_of(b) and col >= 1:
                    return True
        return False

    def where(self):
        """(line, column) of a problem, or None."""
        for p in self.hard or self.problems:
            for off in p.points:
                return min(self.places(off))
            for a, b in p.lines or ():
                return self.line_of(a), 1
        return None

    def describe(self):
        return ["%s%s at %s%s" % ("" if p.hard else "(open) ", p.what, [sorted(self.places(o))[0] for o in p.points],
                                  [(self.line_of(a), self.line_of(b)) for a, b in p.lines or ()] or "") for p in self.problems[:4]]


def lex(t):
    i, n = 0, len(t)
    while i < n:
        c = t[i]
        if c in b" \t\r\n":
            i += 1
            continue
        if c in LETTER:
            j = i
            kind = "name"
            while True:
                while j < n and (t[j] in LETTER or t[j] in DIGIT):
                    j += 1
                if j < n and t[j] == 0x2e:
                    if j + 1 < n and t[j + 1] in LETTER:
                        kind = "qname"
                        j += 1
                        continue
                    yield Tok("bad", t[i:j + 1], i, j + 1, "identifier")
                    return
                break
            yield Tok(kind, t[i:j], i, j)
            i = j
        elif c in DIGIT:
            j = i
            while j < n and t[j] in DIGIT:
                j += 1
            # 'need space between number and identifier' is left open
            yield Tok("int", t[i:j], i, j, "glued" if j < n and (t[j] in LETTER or t[j] == 0x2e) else None)
            i = j
        elif c == 0x2f:
            if t[i + 1:i + 2] == b"/":
                j = t.find(b"\n", i)
                i = n if j < 0 else j + 1
            elif t[i + 1:i + 2] == b"*":
                j = t.find(b"*/", i + 2)
                if j < 0:
                    yield Tok("bad", t[i:i + 2], i, n, "comment")
                    return
                i = j + 2
            else:
                yield Tok("bad", t[i:i + 1], i, i + 1, "slash")
                return
        elif c == 0x22:
            j = i + 1
            while j < n and t[j] not in b'"\n\0':
                j += 1
            if j >= n or t[j] != 0x22:
                yield Tok("bad", t[i:j], i, j, "string")
                return
            yield Tok("str", t[i + 1:j], i, j + 1, "escape" if t[j - 1] == 0x5c and j - 1 > i else None)
            i = j + 1
        elif c in b"={};,<>[]":
            yield Tok("sym", t[i:i + 1], i, i + 1)
            i += 1
        else:
            yield Tok("bad", t[i:i + 1], i, i + 1, "symbol")
            return


class _Parser:
    def __init__(self, t):
        self.t = t
        self.probs = []
        self.toks = list(lex(t))
        if not self.toks or self.toks[-1].kind != "bad":
            self.toks.append(Tok("eof", b"", len(t), len(t)))
        self.i = 0
        self.package = b""
        self.seen_package = False
        self.lax = False
        self.messages = []
        self.options = {}

    # problems
    def hard(self, what, tok):
        if tok.kind == "eof":
            prev = self.toks[-2] if len(self.toks) > 1 else tok
            self.probs.append(Problem(what + " (end of file)", True, [], [(prev.pos, len(self.t))]))
        elif tok.kind == "bad":
            pts = [tok.pos]
            if tok.note == "identifier":
                pts += [tok.end - 1, tok.end]
            self.probs.append(Problem("invalid " + tok.note, True, pts))
        else:
            pts = [tok.pos]
            prev = self.toks[self.toks.index(tok) - 1] if tok in self.toks else None
            if prev is not None and prev.note == "glued":
                pts.append(prev.pos)
            self.probs.append(Problem("%s (found %r)" % (what, tok.val), True, pts))
        raise Stop()

    def soft(self, what, tok):
        self.probs.append(Problem(what, False, [tok.pos] if tok.kind != "eof" else [], [(tok.pos, tok.end)]))

    def sem(self, what, *spans):
        self.probs.append(Problem(what, True, [], list(spans)))

    # tokens
    def cur(self):
        return self.toks[self.i]

    def next(self):
        t = self.toks[self.i]
        if self.i < len(self.toks) - 1:
            self.i += 1
        return t

    def is_sym(self, c):
        return self.cur().kind == "sym" and self.cur().val == c

    def expect(self, c):
        if not self.is_sym(c):
            # proto3 may go on here
            t = self.cur()
            if t.kind == "str" and c == b";" and self.toks[self.i - 1].kind == "str":
                self.soft("adjacent strings", t)
            self.hard("expected %r" % c, t)
        return self.next()

    def is_kw(self, w):
        return self.cur().kind == "name" and self.cur().val == w

    def name(self, what, ok=(b"message", b"package"), qualified=False):
        t = self.cur()
        if t.kind == "qname" and qualified:
            return self.next()
        if t.kind != "name":
            self.hard("expected " + what, t)
        if t.val in KEYWORDS and t.val not in ok:
            self.soft("keyword as " + what, t)
        return self.next()

    # grammar
    def file(self):
        syntax = False
        while self.cur().kind != "eof":
            t = self.cur()
            if self.is_kw(b"syntax"):
                syntax = True
                if self.i != 0:
                    self.soft("syntax is not first", t)
                self.next()
                self.expect(b"=")
                v = self.cur()
                if v.kind != "str":
                    self.hard("expected the version", v)
                self.next()
                if v.note:
                    self.soft("escape", v)
                # the version may be judged before or after the semicolon
                if v.val != b"proto3":
                    self.sem("version", (t.pos, self.cur().end))
                self.expect(b";")
            elif self.is_kw(b"package"):
                if self.seen_package or self.messages:
                    self.soft("late package", t)
                    self.lax = True
                self.next()
                v = self.name("package name", (), True)
                for part in v.val.split(b"."):
                    if part in CPP_KEYWORDS:
                        self.sem("keyword in the package", (t.pos, self.cur().end))
                    elif part in KEYWORDS:
                        self.soft("keyword in the package", v)
                if v.val.split(b".")[0] == b"std" or b"protogen_" in v.val:
                    self.soft("reserved package", v)
                self.expect(b";")
                self.package = v.val
                self.seen_package = True
            elif self.is_kw(b"option"):
                self.next()
                self.option(self.options, t, b";")
            elif self.is_kw(b"message"):
                self.message()
            elif self.is_sym(b";"):
                self.soft("empty statement", t)
                self.next()
            else:
                self.hard("unexpected token", t)
        if not syntax:
            self.probs.append(Problem("no syntax statement", False, [], [(0, len(self.t))]))

    def option(self, into, first, end):
        n = self.name("option name", (), True)
        self.expect(b"=")
        v = self.cur()
        if v.kind not in ("name", "qname", "int", "str"):
            self.hard("expected an option value", v)
        if v.kind == "name" and v.val in KEYWORDS and v.val not in (b"true", b"false"):
            self.soft("keyword as option value", v)
        if v.note:
            self.soft("option value", v)
            self.lax = self.lax or v.note == "escape"
        self.next()
        kind = "bool" if v.kind == "name" and v.val in (b"true", b"false") else v.kind
        if n.val in into:
            self.soft("repeated option", n)
        into[n.val] = (kind, v.val, (first.pos, v.end))
        if end:
            self.expect(end)

    def message(self):
        first = self.next()
        n = self.name("message name")
        if n.val in CPP_KEYWORDS:
            self.sem("message name", (first.pos, n.end))
        m = {"name": n.val, "fields": [], "span": None, "package": self.package}
        for o in self.messages:
            if o["name"] == n.val and o["package"] == self.package:
                self.sem("repeated message", (first.pos, n.end), o["span"])
        # the name may be judged before the rest is seen
        self.expect(b"{")
        opts = {}
        while not self.is_sym(b"}"):
            t = self.cur()
            if self.is_kw(b"option"):
                self.next()
                self.option(opts, t, b";")
            elif self.is_sym(b";"):
                self.soft("empty statement", t)
                self.next()
            else:
                self.field(m)
        m["span"] = (first.pos, self.next().end)
        m["head"] = (first.pos, n.end)
        self.messages.append(m)

    def field(self, m):
        first = self.cur()
        f = {"repeated": False, "opts": {}, "type": None}
        if self.is_kw(b"repeated") or self.is_kw(b"optional"):
            f["repeated"] = self.next().val == b"repeated"
        t = self.cur()
        if t.kind == "name" and t.val in SCALARS:
            self.next()
        elif t.kind == "qname" or (t.kind == "name" and t.val not in KEYWORDS):
            f["type"] = t.val
            self.next()
        elif t.kind == "name" and t.val in (b"true", b"false", b"syntax", b"package"):
            self.soft("keyword as type", t)
            f["type"] = t.val
            self.next()
        else:
            self.hard("expected a type", t)
        n = self.name("field name")
        f["name"] = n.val
        if n.val in CPP_KEYWORDS:
            self.sem("field name", (first.pos, n.end))
        self.expect(b"=")
        v = self.cur()
        if v.kind != "int":
            self.hard("expected a field number", v)
        self.next()
        if v.note:
            self.soft("number", v)
        if v.val[:1] == b"0" and len(v.val) > 1:
            self.soft("octal", v)
        f["number"] = int(v.val)
        # problems of a field may be reported before later tokens are seen
        span = (first.pos, v.end)
        if not (1 <= f["number"] <= 536870911) or 19000 <= f["number"] <= 19999:
            self.sem("field number", span)
        if self.is_sym(b"["):
            self.next()
            if self.is_sym(b"]"):
                self.soft("no options", self.cur())
            while not self.is_sym(b"]"):
                self.option(f["opts"], self.cur(), None)
                if self.is_sym(b","):
                    self.next()
                    if self.is_sym(b"]"):
                        self.soft("trailing comma", self.cur())
                elif not self.is_sym(b"]"):
                    nxt = self.cur()
                    if nxt.kind in ("name", "qname"):
                        self.soft("missing comma", nxt)
                    else:
                        self.hard("expected ',' or ']'", nxt)
            self.next()
        f["span"] = (first.pos, self.cur().end)
        self.expect(b";")
        for o in m["fields"]:
            if o["name"] == n.val:
                self.sem("repeated field name", f["span"], o["span"])
            if o["number"] == f["number"]:
                self.sem("repeated field number", f["span"], o["span"])
        m["fields"].append(f)

    def semantics(self):
        byname = {}
        for m in self.messages:
            byname.setdefault((m["package"] + b"." if m["package"] else b"") + m["name"], m)
        flags = {}
        for k in (b"obfuscate_strings", b"number_names", b"cpp_use_lists"):
            if k in self.options:
                kind, val, span = self.options[k]
                if kind != "bool":
                    self.sem("kind of option", span)
                flags[k] = val == b"true"
        for m in self.messages:
            if len(m["fields"]) > 64:
                self.sem("number of fields", m["span"])
            if m["name"] in MEMBERS:
                self.sem("message name", m["span"])
            if not m["package"] and (m["name"] == b"std" or m["name"].startswith(b"protogen_")):
                self.soft("reserved name", Tok("name", m["name"], m["span"][0], m["span"][1]))
            if m["name"].endswith(b"_type") and any(o["name"] == m["name"][:-5] and o["package"] == m["package"] for o in self.messages):
                other = [o for o in self.messages if o["name"] == m["name"][:-5]][0]
                self.sem("message name", m["span"], other["span"])
            names = {}
            for f in m["fields"]:
                kind, val, span = f["opts"].get(b"transient", ("bool", b"false", None))
                if kind != "bool":
                    self.sem("kind of option", span, f["span"])
                trans = val == b"true"
                kind, val, span = f["opts"].get(b"name", ("str", f["name"], None))
                if kind != "str":
                    self.sem("kind of option", span, f["span"])
                else:
                    if b"'" in val or b'"' in val:
                        self.sem("quote in the name", f["span"])
                    try:
                        val.decode("utf-8")
                    except UnicodeDecodeError:
                        self.sem("encoding of the name", f["span"])
                if not trans:
                    if val in names and not flags.get(b"number_names"):
                        self.sem("repeated JSON name", f["span"], names[val])
                    names[val] = f["span"]
                if f["type"] is not None:
                    f["ref"] = self.resolve(byname, m["package"], f["type"])
                    if f["ref"] is None:
                        self.sem("unknown type", f["span"])
        self.cycles()

    @staticmethod
    def resolve(byname, scope, name):
        while True:
            q = (scope + b"." if scope else b"") + name
            if q in byname:
                return byname[q]
            if not scope:
                return None
            scope = scope[:scope.rfind(b".")] if b"." in scope else b""

    def cycles(self):
        # messages that are not removed by repeatedly removing those without references are in or lead to a cycle
        left = dict((id(m), m) for m in self.messages)
        changed = True
        while changed:
            changed = False
            for k, m in list(left.items()):
                if not any(f.get("ref") is not None and id(f["ref"]) in left for f in m["fields"]):
                    del left[k]
                    changed = True
        if left:
            self.sem("circular reference", *[m["span"] for m in left.values()])


def judge(text):
    p = _Parser(text)
    try:
        p.file()
    except Stop:
        return Verdict(text, p.probs)
    if p.lax:
        p.probs.append(Problem("open", False, [], [(0, len(text))]))
    if text.startswith(b"\xef\xbb\xbf"):
        p.probs.append(Problem("byte order mark", False, [], [(0, len(text))]))
    before = len([x for x in p.probs if x.hard])
    p.semantics()
    if p.lax and before == 0:
        for x in p.probs:
            x.hard = False
    return Verdict(text, p.probs)


DIAG = re.compile(rb"^(.*):(\d+):(\d+): error: (.+)$", re.M)
