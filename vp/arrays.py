"""Array helper operations of the driver (harness/arrays.hh)."""
import struct

from . import values as V, jsonref
from .driver import Ops
from .schema import Field, Message

KINDS = ["int32", "int64", "uint32", "uint64", "float", "double", "bool", "string", "string_field"]
CPPT = ["int32_t", "int64_t", "uint32_t", "uint64_t", "float", "double", "bool", "std::string", "PGNS::string_field"]


def seeded(s):
    """Adds a message that makes the generated header include every part the helpers need."""
    m = Message("ArrayParts")
    m.fields = [Field("repeated", "int32", "n", 1), Field("", "string", "t", 2), Field("", "double", "d", 3), Field("repeated", "bytes", "b", 4)]
    m.idx = len(s.messages)
    s.messages.append(m)
    return s


def ext_code(s):
    out = ['#include "arrays.hh"', "namespace drv {", "inline void ext(uint8_t, Rd &r, Wr &w, State &st)\n{\n    switch (r.u8())\n    {"]
    for i, t in enumerate(CPPT):
        out.append("        case %d: array_kind< %s >(r, w, st); break;" % (i, t))
    for m in s.messages:
        out.append("        case %d: array_kind< %s >(r, w, st); break;" % (16 + m.idx, s.cpp(m)))
    out.append('        default: fprintf(stderr, "driver: bad element kind\\n"); _Exit(99);\n    }\n}\n} // namespace drv')
    return "\n".join(out)


class ArrayType:
    def __init__(self, kind, message=None):
        self.kind = kind
        self.message = message
        if message is not None:
            self.code = 16 + message.idx
            self.f = jsonref.ArrField("message", message)
        else:
            self.code = KINDS.index(kind)
            self.f = jsonref.ArrField("string" if kind == "string_field" else kind)


def types(s):
    return [ArrayType(k) for k in KINDS] + [ArrayType("message", m) for m in s.messages]


def ser(o, t, container, sink, values, mode, asc, null, prefix=b""):
    """-> {ok, out, err, own}"""
    b = [bytes([0x80, t.code, container, 0, sink]), Ops._pm(mode, asc, null), struct.pack("<I", len(prefix)), prefix, struct.pack("<I", len(values))]
    for v in values:
        V.enc_elem(t.f, v, b)
    o.b.append(b"".join(b))
    n = len(values)

    def d(r):
        res = {"ok": bool(r.u8()), "out": r.blob(), "err": Ops._err(r) if mode else None, "own": []}
        if t.message is not None:
            res["own"] = [(bool(r.u8()), r.blob()) for _ in range(n)]
        return res
    o.dec.append(d)


def des(o, t, container, source, text, mode, asc, null):
    """-> {ok, err, value}"""
    o.b.append(bytes([0x80, t.code, container, 1, source]) + Ops._pm(mode, asc, null) + struct.pack("<I", len(text)) + text)

    def d(r):
        res = {"ok": bool(r.u8()), "err": Ops._err(r) if mode else None}
        res["value"] = [V.dec_elem(t.f, r) for _ in range(r.u32())]
        return res
    o.dec.append(d)
