"""A minimal protobuf encoder and decoder, for plugin requests and responses."""

TYPE = {"double": 1, "float": 2, "int64": 3, "uint64": 4, "int32": 5, "fixed64": 6,
        "fixed32": 7, "bool": 8, "string": 9, "group": 10, "msg": 11, "bytes": 12,
        "uint32": 13, "enum": 14, "sfixed32": 15, "sfixed64": 16, "sint32": 17,
        "sint64": 18}
LABEL = {"optional": 1, "required": 2, "repeated": 3}


def varint(n):
    out = bytearray()
    while True:
        b = n & 0x7F
        n >>= 7
        if n:
            out.append(b | 0x80)
        else:
            out.append(b)
            return bytes(out)


def field(num, val):
    """A field: an int as a varint, str or bytes length-delimited."""
    if isinstance(val, int):
        return varint(num << 3) + varint(val)
    if isinstance(val, str):
        val = val.encode()
    return varint(num << 3 | 2) + varint(len(val)) + val


def fixed64(num, b):
    return varint(num << 3 | 1) + b


def field_desc(name, number, label, typ, type_name=None, json=None, more=b""):
    out = field(1, name)
    if type_name:
        out += field(6, type_name)
    out += field(3, number) + field(4, LABEL[label]) + field(5, TYPE[typ])
    return out + (field(10, json) if json else b"") + more


def message_desc(name, fields, more=b""):
    return field(1, name) + b"".join(field(2, f) for f in fields) + more


def enum_desc(name):
    vals = field(2, field(1, name.upper() + "_ZERO") + field(2, 0))
    vals += field(2, field(1, name.upper() + "_ONE") + field(2, 1))
    return field(1, name) + vals


def file_desc(name, package, messages, enums=(), deps=(), syntax="proto3", more=b""):
    out = field(1, name) + (field(2, package) if package else b"")
    out += b"".join(field(3, d) for d in deps)
    out += b"".join(field(4, m) for m in messages)
    out += b"".join(field(5, enum_desc(e)) for e in enums)
    return out + field(12, syntax) + more


def request(to_generate, files, parameter="", version=0):
    out = b"".join(field(1, g) for g in to_generate)
    if parameter:
        out += field(2, parameter)
    if version:
        # 100 and above: with a suffix
        out += field(3, field(1, 3 + version // 200) + field(2, version % 100) + field(3, 1)
                     + (field(4, "-rc%d" % (version // 100)) if version >= 100 else b""))
    return out + b"".join(field(15, f) for f in files)


def parse(buf):
    """Yields (field number, wire type, value)."""
    i = 0

    def uv():
        nonlocal i
        x = s = 0
        while True:
            b = buf[i]
            i += 1
            x |= (b & 0x7F) << s
            s += 7
            if b < 0x80:
                return x
    out = []
    while i < len(buf):
        tag = uv()
        w = tag & 7
        if w == 0:
            v = uv()
        elif w == 1:
            v = buf[i:i + 8]
            i += 8
        elif w == 5:
            v = buf[i:i + 4]
            i += 4
        elif w == 2:
            n = uv()
            v = buf[i:i + n]
            if len(v) != n:
                raise ValueError("truncated")
            i += n
        else:
            raise ValueError("wire type %d" % w)
        out.append((tag >> 3, w, v))
    return out


def response(buf):
    """(error or None, [(name, content)]) of a CodeGeneratorResponse."""
    err, files = None, []
    for f, _, v in parse(buf):
        if f == 1:
            err = v.decode(errors="replace")
        elif f == 15:
            d = {g: x for g, _, x in parse(v)}
            files.append((d.get(1, b"").decode(errors="surrogateescape"), d.get(15, b"").decode(errors="surrogateescape")))
    return err, files
