"""Schema model of a proto text in canonical form (only what our own fixed schemas use)."""
import re

from .schema import Field, Message, Schema


def parse(text):
    s = Schema()
    toks = re.findall(r'"[^"]*"|[A-Za-z_][A-Za-z0-9_.]*|\d+|[{}\[\]=;,]', text)
    i = 0
    byname = {}
    cur = None
    while i < len(toks):
        t = toks[i]
        if cur is None:
            if t == "syntax":
                i += 4
            elif t == "package":
                s.package = toks[i + 1]
                i += 3
            elif t == "option":
                v = toks[i + 3] == "true"
                if toks[i + 1] == "obfuscate_strings":
                    s.obfuscate = v
                elif toks[i + 1] == "number_names":
                    s.number_names = v
                elif toks[i + 1] == "cpp_use_lists":
                    s.use_lists = v
                i += 5
            elif t == "message":
                cur = Message(toks[i + 1])
                cur.idx = len(s.messages)
                s.messages.append(cur)
                byname[cur.name] = cur
                i += 3
            else:
                raise ValueError(t)
        elif t == "}":
            cur = None
            i += 1
        else:
            label = ""
            if t in ("repeated", "optional"):
                label = t
                i += 1
            typ, name, num = toks[i], toks[i + 1], int(toks[i + 3])
            i += 4
            ref = byname.get(typ)
            f = Field(label, "message" if ref else typ, name, num, ref)
            if toks[i] == "[":
                while toks[i] != "]":
                    if toks[i] == "transient":
                        f.transient = toks[i + 2] == "true"
                    elif toks[i] == "name":
                        f.json_name = toks[i + 2][1:-1]
                    i += 1
                i += 1
            i += 1
            cur.fields.append(f)
    return s
