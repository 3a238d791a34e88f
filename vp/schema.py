"""Model of a .proto file in the subset protogen documents, generator and renderer."""
import re

INT_TYPES = {
    "int32": ("int32_t", True, 32), "int64": ("int64_t", True, 64), "uint32": ("uint32_t", False, 32),
    "uint64": ("uint64_t", False, 64), "sint32": ("int32_t", True, 32), "sint64": ("int64_t", True, 64),
    "fixed32": ("uint32_t", False, 32), "fixed64": ("uint64_t", False, 64), "sfixed32": ("int32_t", True, 32),
    "sfixed64": ("int64_t", True, 64),
}
CPP = {k: v[0] for k, v in INT_TYPES.items()}
CPP.update({"double": "double", "float": "float", "bool": "bool"})
NUMERIC = ["int32", "double", "bool", "int64", "uint32", "uint64", "float", "sint32", "sint64", "fixed32", "fixed64",
           "sfixed32", "sfixed64"]
SCALARS = NUMERIC + ["string", "bytes"]

CPP_KEYWORDS = set("""alignas alignof and and_eq asm auto bitand bitor bool break case catch char char16_t char32_t class compl
const constexpr const_cast continue decltype default delete do double dynamic_cast else enum explicit export extern false float
for friend goto if inline int long mutable namespace new noexcept not not_eq nullptr operator or or_eq private protected public
register reinterpret_cast return short signed sizeof static static_assert static_cast struct switch template this thread_local
throw true try typedef typeid typename union unsigned using virtual void volatile wchar_t while xor xor_eq""".split())
PROTO_KEYWORDS = set(["message", "repeated", "string", "enum", "double", "float", "bool", "int32", "int64", "uint32", "uint64",
                      "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64", "bytes", "package", "syntax", "map",
                      "option", "true", "false", "optional"])
# members of the generated classes hide fields with these names (the code compiles, but the field is not obj.name)
HIDDEN_NAMES = set("""empty clear swap equal serialize deserialize value_type serializer_type underlying_type message_base""".split())
# macros, or names of the global namespace, that the C and C++ headers may define
RESERVED_NAMES = set("""EOF NULL errno stdin stdout stderr assert linux unix i386 major minor makedev INFINITY NAN PROTOGEN isnan isinf signbit
isfinite isnormal putc getc offsetof setjmp va_start alloca""".split())
API_NAMES = HIDDEN_NAMES | RESERVED_NAMES

FIELD_NAMES = """a b c d f i o s t id name age value ctx os it f1 x2 params tok mask result index message package order error first
color after river temp text size type len data key Number N aN Nb nN a9 x9yz a9bc w99z item9 colour cherries weight title email
phones owner last_updated pets ingredients firstName isActive HTTPCode _hidden under_score trailing_ camelCaseName
very_long_field_name_that_goes_on_and_on_1234567890 zz99 r9 raw_r strawberryrrr abcdefghiN elevenchars twelve_chars9
thirteen_char fourteen_chars l1 l2 json field string_field ostream istream list vector map_ begin end first_r second std int32_t uint8_t size_t uint64_t my_type message
params_ istream tokenizer X_type error_code ostream""".split()
MSG_NAMES = """Person Address PhoneNumber Cake Basic Container A B Foo Bar Baz Node Item Order Error List Map field json message
package Message Data_1 X9 lowercase Result Option Params Vector token tokenizer std vector string_field""".split()
PKG_PARTS = "pkg phonebook options types a b1 my_app internal_ v1 proto com acme Upper json std vector".split()

JSON_SPECIAL = ["e-mail", "a b", "", "x.y", "@type", "$ref", "$1$", "%s%n", "a\\b", "\\", "a\\", "??/", "a?b", "a/b", "//", "/*", "é",
                "이름", "😀", "tab\there", "{", "}", "[]", "a:b", "a,b", "0", "-1", "null", "true", "#", "<>", "&amp;", "\x7f",
                "\x01", "\\n", "\\u0041", "name=", ";", "\\\\", "12345", "日本語の名前", "ÿ", "\u0800", "\uffff", "N", "aN", "order",
                "a9bc", "thirteen_charr", "x" * 70]


class Field:
    __slots__ = ("label", "type", "ref", "name", "number", "options", "transient", "json_name", "qualify")

    def __init__(self, label, type_, name, number, ref=None):
        self.label = label          # "", "optional", "repeated"
        self.type = type_           # scalar name or "message"
        self.ref = ref              # Message
        self.name = name
        self.number = number
        self.transient = None       # None (not given), True, False
        self.json_name = None
        self.options = []           # extra options [(name, token)]
        self.qualify = False        # write the message type with its package

    @property
    def repeated(self):
        return self.label == "repeated"

    @property
    def kind(self):
        if self.type in ("string", "bytes", "message", "bool"):
            return self.type
        if self.type in ("double", "float"):
            return self.type
        return "int"


class Message:
    __slots__ = ("name", "fields", "options", "rank", "idx", "depth")

    def __init__(self, name):
        self.name = name
        self.fields = []
        self.options = []
        self.rank = 0
        self.depth = 1
        self.idx = 0


class Schema:
    def __init__(self):
        self.package = ""
        self.messages = []
        self.obfuscate = None
        self.number_names = None
        self.use_lists = None
        self.options = []

    def jname(self, f):
        if self.number_names:
            return str(f.number)
        return f.name if f.json_name is None else f.json_name

    def cpp(self, m):
        return ("::" + self.package.replace(".", "::") if self.package else "") + "::" + m.name

    def fields(self):
        for m in self.messages:
            for f in m.fields:
                yield m, f


def ident(src, lower=True):
    first = "abcdefghijklmnopqrstuvwxyz" if lower else "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
    rest = "abcdefghijklmnopqrstuvwxyz0123456789_NRr9ABCXYZ"
    n = src.int(1, 14)
    if src.bool(1, 40):
        n = src.pick([15, 16, 30, 31, 32, 62, 63, 64, 65, 100, 126, 127, 128, 254, 255, 256, 257, 500, 1000])
    s = src.pick(first)
    for _ in range(min(n, 40)):
        s += src.pick(rest)
    return (s * (n // len(s) + 1))[:n + 1] if n > 40 else s


def bad_name(n, hidden=False):
    return (n in CPP_KEYWORDS or n in (RESERVED_NAMES if hidden else API_NAMES) or n.startswith("__") or
            (n in PROTO_KEYWORDS and n not in ("message", "package")) or n.startswith("protogen_") or
            (n[0] == "_" and len(n) > 1 and n[1].isupper()))


def field_name(src, used, hidden=False):
    for _ in range(6):
        n = src.pick(FIELD_NAMES) if src.bool(3, 4) else ident(src, not src.bool(1, 8))
        if hidden and src.bool(1, 6):
            n = src.pick(sorted(HIDDEN_NAMES))
        if used and src.bool(1, 10):
            # almost the name of another field
            n = src.pick(sorted(used))
            k = src.draw(len(n)) if n else 0
            n = src.pick([n[:k] + n[k:k + 1].swapcase() + n[k + 1:], n + "_", n + "1", n[:-1], n.upper(), "_" + n])
            if not re.match("[A-Za-z_][A-Za-z0-9_]*$", n):
                continue
        if n not in used and not bad_name(n, hidden):
            used.add(n)
            return n
    k = 0
    while "f_%d" % k in used:
        k += 1
    used.add("f_%d" % k)
    return "f_%d" % k


def utf8_name(src):
    cps = []
    for _ in range(src.int(1, 8)):
        k = src.draw(6)
        c = (src.int(0x61, 0x7a) if k < 2 else src.int(0x20, 0x7e) if k < 4 else src.int(0xa1, 0x7ff) if k == 4 else
             src.pick([0x800, 0x3042, 0xd7ff, 0xe000, 0xfffd, 0x10000, 0x1f600, 0x10ffff]))
        if c in (0x22, 0x27):
            c = 0x61
        cps.append(chr(c))
    return "".join(cps)


def json_name(src, used):
    for _ in range(6):
        k = src.draw(4)
        n = src.pick(JSON_SPECIAL) if k < 2 else ident(src) if k == 2 else utf8_name(src)
        if n not in used:
            return n
    return None


FIELD_NUMBERS = [1, 2, 15, 16, 99, 999, 1009, 2047, 9999, 18999, 20000, 65535, 65536, 1 << 28, (1 << 29) - 2, (1 << 29) - 1]


def field_number(src, used):
    for _ in range(8):
        n = src.int(1, 40) if src.bool(2, 3) else src.pick(FIELD_NUMBERS) if src.bool(1, 2) else src.int(1, (1 << 29) - 1)
        if n not in used and not 19000 <= n <= 19999:
            used.add(n)
            return n
    n = 1
    while n in used:
        n += 1
    used.add(n)
    return n


EXTRA_OPTIONS = [("deprecated", "true"), ("java_package", '"com.example.x"'), ("optimize_for", "SPEED"), ("packed", "false"),
                 ("level", "42"), ("some.nested.option", "a.b.c"), ("json_name", '"other"'), ("go_package", '""'),
                 ("note", '"with // no comment /* inside */ and \\ backslash"'), ("Transient", "true"), ("names", '"x"'), ("x.name", '"other"'), ("my.transient", "true"),
                 ("a.obfuscate_strings", "true"), ("name.x", '"y"'), ("transient.y", "true"), ("b.c.number_names", "true"), ("cpp_use_lists.z", "true")]


def gen_schema(src, max_msgs=6, max_fields=12, types=None, options=True, fancy=True, package=None, refs=True, wide=False, hidden=False, avoid=(), deep=False):
    """A valid schema. hidden: also field names that the members of the generated classes hide. types: allowed scalar types. fancy: custom JSON names, extra options and odd numbers."""
    s = Schema()
    types = types or SCALARS
    if package is not None:
        s.package = package
    elif src.bool(4, 5):
        parts = src.list(1.5, 3, lambda q: q.pick(PKG_PARTS), lo=1)
        if src.bool(1, 16):
            # long paths
            if src.bool():
                parts += ["p%d" % i for i in range(src.pick([8, 17, 40, 90]))]
            else:
                parts.insert(src.draw(len(parts) + 1), src.pick("nq") * src.pick([64, 128, 255, 257, 600]))
        if parts[0] in ("std", "vector"):
            parts.insert(0, "top")
        s.package = ".".join(parts)
    if options:
        s.obfuscate = src.weighted([(5, None), (3, True), (1, False)])
        s.number_names = src.weighted([(6, None), (2, True), (1, False)])
        s.use_lists = src.weighted([(5, None), (3, True), (1, False)])
        if fancy:
            s.options = src.list(0.4, 2, lambda q: q.pick(EXTRA_OPTIONS[1:]))
    nmsg = src.int(1, max_msgs)
    if deep:
        # a long chain of messages
        nmsg = src.pick([12, 20, 33, 40, 65]) if deep is True else src.int(8, deep)
    used = set(avoid)
    pool = [n for n in MSG_NAMES if s.package or n not in ("lowercase", "list", "map", "std", "vector", "string_field", "json", "field", "token", "tokenizer")]
    for i in range(nmsg):
        n = None
        for _ in range(5):
            c = src.pick(pool) if src.bool(3, 4) else ident(src, False)
            if c in used or c in CPP_KEYWORDS or c.endswith("_type") or c in API_NAMES:
                continue
            n = c
            break
        if n is None:
            n = "M%d" % i
            while n in used:
                n += "x"
        used.add(n)
        m = Message(n)
        m.rank = i
        s.messages.append(m)
    for i, m in enumerate(s.messages):
        nf = src.draw(max_fields + 1) if not deep else src.int(1, 2)
        if wide and i == 0 and src.bool(1, 3):
            nf = src.int(50, 64)
        fnames, fnums, jnames = set() if hidden else {m.name}, set(), set()
        for k in range(nf):
            label = src.weighted([(5, ""), (1, "optional"), (3, "repeated")])
            ref = None
            refable = [x for x in s.messages[:i] if x.name not in PROTO_KEYWORDS] if refs else []
            if refable and deep and k == 0 and src.bool(19, 20):
                t, ref = "message", refable[-1]
            elif refable and src.bool(1, 4):
                t, ref = "message", src.pick(refable)
            else:
                t = src.pick(types)
            f = Field(label, t, field_name(src, fnames, hidden), field_number(src, fnums), ref)
            if ref is not None and s.package and fancy:
                f.qualify = src.bool(1, 5)
            if fancy and options:
                f.transient = src.weighted([(8, None), (1, True), (1, False)])
                if src.bool(1, 4):
                    f.json_name = json_name(src, jnames)
                if src.bool(1, 10):
                    f.options.append(src.pick(EXTRA_OPTIONS))
            m.fields.append(f)
            if f.json_name is not None:
                jnames.add(f.json_name)
        # JSON names must be distinct within a message
        seen = set()
        for f in m.fields:
            if f.json_name is not None and (f.json_name in seen or any(g.name == f.json_name and g.json_name is None for g in m.fields)):
                f.json_name = None
            n = f.name if f.json_name is None else f.json_name
            if n in seen:
                # another field's custom name equals this name
                for g in m.fields:
                    if g is not f and g.json_name == n:
                        g.json_name = None
            seen = set(g.name if g.json_name is None else g.json_name for g in m.fields[:m.fields.index(f) + 1])
        names = [g.name if g.json_name is None else g.json_name for g in m.fields]
        if len(set(names)) != len(names):
            for g in m.fields:
                g.json_name = None
        if fancy and options and src.bool(1, 10):
            m.options.append(src.pick(EXTRA_OPTIONS))
    for m in s.messages:
        m.depth = 1 + max([f.ref.depth for f in m.fields if f.ref is not None] or [0])
    s.messages = src.shuffle(s.messages)
    for i, m in enumerate(s.messages):
        m.idx = i
    return s


def quote(text):
    return '"' + text + '"'


def tokens(s):
    """The token sequence of the schema."""
    out = ["syntax", "=", '"proto3"', ";"]
    if s.package:
        out += ["package", s.package, ";"]

    def opt(name, val):
        out.extend(["option", name, "=", val, ";"])
    for name, v in (("obfuscate_strings", s.obfuscate), ("number_names", s.number_names), ("cpp_use_lists", s.use_lists)):
        if v is not None:
            opt(name, "true" if v else "false")
    for name, v in s.options:
        opt(name, v)
    for m in s.messages:
        out += ["message", m.name, "{"]
        for name, v in m.options:
            opt(name, v)
        for f in m.fields:
            out += field_tokens(s, f)
        out.append("}")
    return out


def field_tokens(s, f):
    out = []
    if f.label:
        out.append(f.label)
    if f.type == "message":
        out.append(s.package + "." + f.ref.name if f.qualify and s.package else f.ref.name)
    else:
        out.append(f.type)
    out += [f.name, "=", str(f.number)]
    opts = []
    if f.transient is not None:
        opts.append(["transient", "=", "true" if f.transient else "false"])
    if f.json_name is not None:
        opts.append(["name", "=", quote(f.json_name)])
    for n, v in f.options:
        opts.append([n, "=", v])
    if opts:
        out.append("[")
        for i, o in enumerate(opts):
            if i:
                out.append(",")
            out += o
        out.append("]")
    out.append(";")
    return out


def wordy(c):
    return c.isalnum() or c in "_."


def render(s, toks=None):
    """Canonical layout."""
    out = []
    prev = ""
    for t in toks if toks is not None else tokens(s):
        if prev and (prev[-1:] in ";{}"):
            out.append("\n")
        elif prev:
            out.append(" ")
        out.append(t)
        prev = t
    return "".join(out) + "\n"


COMMENT_BODIES = ["", "x", " comment ", " message A { int32 a = 1; } ", "*", "**", " \" unterminated ' ", "/", "// ", " 日本語 ", "\\", " /* ",
                  " ; ", "=", "\t", " syntax = \"proto2\"; ", "é", "* / "]


def gap(src, need, last=False):
    """Insignificant text between two tokens. need: at least something."""
    out = ""
    for _ in range(src.size(0.8, 6)):
        k = src.draw(10)
        if k < 3:
            out += src.pick([" ", "\n", "\t", "\r\n", "  ", "\n\n", " \t "])
        elif k < 6:
            out += src.pick([" ", "\n", "\t", "\r", "\r\n"])
        elif k < 8:
            body = src.pick(COMMENT_BODIES)
            while "*/" in body:
                body = body.replace("*/", "*")
            if body.endswith("*") and src.bool():
                body += " "
            out += "/*" + body + (src.pick(["", "\n", "\r\n"])) + "*/"
        else:
            out += "//" + src.pick(COMMENT_BODIES) + src.pick(["\n", "\r\n"])
    if need and not out:
        out = src.pick([" ", "\n", "\t", "\r\n", "/**/", "// c\n"])
    if last and src.bool(1, 3):
        out += "//" + src.pick(COMMENT_BODIES)
    return out


def layout(src, toks):
    """Random layout of a token sequence."""
    out = [gap(src, False)]
    for i, t in enumerate(toks):
        out.append(t)
        nxt = toks[i + 1] if i + 1 < len(toks) else ""
        need = bool(nxt) and wordy(t[-1]) and wordy(nxt[0])
        out.append(gap(src, need, last=not nxt))
    return "".join(out)
