"""The message types that the harness works on, as zeropb schemas.

A file is (package, [message]); a message is (name, [field]); a field is
(name, number, label, kind, element type or None). Generated with the plugin
built from /repo, like any user's schema.
"""
SCALARS = ["bool", "int32", "int64", "uint32", "uint64", "sint32", "sint64",
           "fixed32", "fixed64", "sfixed32", "sfixed64", "double", "float",
           "string", "bytes", "enum"]

BLOBS = ("string", "bytes", "msg")


def opt(name, num, kind, typ=None):
    return (name, num, "optional", kind, typ)


def rep(name, num, kind, typ=None):
    return (name, num, "repeated", kind, typ)


# Every kind, like golden/test.proto.
ALL = ("All",
       [opt("f_" + k, i + 1, k, "Kind" if k == "enum" else None)
        for i, k in enumerate(SCALARS)]
       + [opt("sub", 17, "msg", "All"), rep("bools", 18, "bool"),
          rep("int32s", 19, "int32"), rep("doubles", 29, "double"),
          rep("strings", 31, "string"), rep("subs", 34, "msg", "All")])

# What spec/pools/Small.tla and Big.tla use.
ELEM = ("Elem", [opt("a", 1, "uint64"), opt("b", 2, "bytes")])
SMALL = ("Small", [opt("n", 1, "uint64"), opt("blob", 2, "bytes"),
                   rep("elems", 3, "msg", "Elem"), opt("fix", 17, "fixed32")])

# Large and sparse field numbers, declared out of order; tags of 1 to 3 bytes.
WIDE = ("Wide", [opt("w_2048", 2048, "sint32"), opt("w_15", 15, "string"),
                 opt("w_16", 16, "fixed64"), rep("w_2046", 2046, "msg", "Elem"),
                 opt("w_2047", 2047, "bytes"), opt("w_1", 1, "uint32"),
                 opt("w_3000", 3000, "bool"), opt("w_2999", 2999, "msg", "Elem"),
                 rep("w_2998", 2998, "msg", "Elem"), opt("w_17", 17, "float")])

# Tags of 4 bytes.
HUGE = ("Huge", [opt("h_1", 1, "int64"), opt("h_262144", 262144, "bytes"),
                 opt("h_262143", 262143, "fixed32"), opt("h_70000", 70000, "string"),
                 opt("h_65535", 65535, "uint64"), opt("h_65536", 65536, "sint64"),
                 rep("h_200000", 200000, "msg", "Elem")])

# Nesting and several repeated fields of one type.
TREE = ("Tree", [opt("val", 3, "uint64"), rep("kids", 4, "msg", "Tree"),
                 opt("left", 1, "msg", "Tree"), opt("right", 2, "msg", "Tree"),
                 rep("more_kids", 5, "msg", "Tree"), rep("elems", 6, "msg", "Elem"),
                 opt("name", 7, "string"), opt("elem", 20, "msg", "Elem"),
                 rep("nums", 8, "int64")])

# A small schema: most field numbers are unknown to it.
TINY = ("Tiny", [opt("x", 2, "uint32"), opt("s", 5, "string"),
                 rep("ms", 9, "msg", "Elem"), rep("rs", 7, "sint32")])

# The subset of the etcd/raft messages in the README.
RAFT = [("Entry", [opt("Term", 2, "uint64"), opt("Index", 3, "uint64"),
                   opt("Type", 1, "enum", "EntryType"), opt("Data", 4, "bytes")]),
        ("ConfState", [rep("nodes", 1, "uint64"), rep("learners", 2, "uint64")]),
        ("SnapshotMetadata", [opt("conf_state", 1, "msg", "ConfState"),
                              opt("index", 2, "uint64"), opt("term", 3, "uint64")]),
        ("Snapshot", [opt("data", 1, "bytes"),
                      opt("metadata", 2, "msg", "SnapshotMetadata")]),
        ("Message", [opt("type", 1, "enum", "MessageType"), opt("to", 2, "uint64"),
                     opt("from", 3, "uint64"), opt("term", 4, "uint64"),
                     opt("logTerm", 5, "uint64"), opt("index", 6, "uint64"),
                     rep("entries", 7, "msg", "Entry"), opt("commit", 8, "uint64"),
                     opt("snapshot", 9, "msg", "Snapshot"), opt("reject", 10, "bool"),
                     opt("rejectHint", 11, "uint64"), opt("context", 12, "bytes")])]

FILES = [("vcore", [ALL, ELEM, SMALL, WIDE, HUGE, TREE, TINY]), ("vraft", RAFT)]


def go_name(name):
    out, up = "", True
    for c in name:
        if not c.isalnum():
            up = True
        elif up:
            out, up = out + c.upper(), False
        else:
            out += c
    return out
