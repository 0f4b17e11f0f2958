--------------------------------- MODULE Wire --------------------------------
(* The protobuf wire format, byte-accurately.                                *)
(*                                                                           *)
(* TLC's integers have 32 bits, so 64 bit numbers are sequences: the varint  *)
(* payload of a number is its sequence of 7 bit groups, least significant    *)
(* first, without trailing zero groups (<< >> is zero); the value of a typed *)
(* scalar is its little-endian bytes at the width of its Go type.            *)
EXTENDS Bytes

Kinds == {"bool", "int32", "int64", "uint32", "uint64", "sint32", "sint64",
          "fixed32", "fixed64", "sfixed32", "sfixed64", "double", "float",
          "string", "bytes", "enum", "msg"}

WVarint == 0
WFixed64 == 1
WBytes == 2
WFixed32 == 5
WireTypes == {WVarint, WFixed64, WBytes, WFixed32}

WireOf(k) ==
    CASE k \in {"fixed32", "sfixed32", "float"} -> WFixed32
      [] k \in {"fixed64", "sfixed64", "double"} -> WFixed64
      [] k \in {"string", "bytes", "msg"} -> WBytes
      [] OTHER -> WVarint

WidthOf(k) ==
    CASE k = "bool" -> 1
      [] k \in {"int32", "uint32", "sint32", "enum", "fixed32", "sfixed32", "float"} -> 4
      [] OTHER -> 8

IsBlob(k) == WireOf(k) = WBytes

ZeroOf(k) == IF IsBlob(k) THEN << >> ELSE [i \in 1..WidthOf(k) |-> 0]

-----------------------------------------------------------------------------
(* Groups of seven bits.                                                     *)

RECURSIVE Trim(_)
Trim(g) == IF g # << >> /\ g[Len(g)] = 0 THEN Trim(SubSeq(g, 1, Len(g) - 1)) ELSE g

Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256>>
P2(n) == Pow2[n + 1]
At(s, i) == IF i + 1 \in DOMAIN s THEN s[i + 1] ELSE 0      \* index from 0

\* The low 8 * n bits of a number given in groups, as little-endian bytes.
GroupsToLE(g, n) ==
    [k \in 1..n |->
        LET a == (8 * (k - 1)) \div 7
            r == (8 * (k - 1)) % 7
        IN  (At(g, a) \div P2(r) + At(g, a + 1) * P2(7 - r)) % 256]

\* Little-endian bytes (at most 8) as groups.
LEToGroups(b) ==
    Trim([k \in 1..((8 * Len(b) + 6) \div 7) |->
        LET a == (7 * (k - 1)) \div 8
            r == (7 * (k - 1)) % 8
        IN  (At(b, a) \div P2(r) + At(b, a + 1) * P2(8 - r)) % 128])

RECURSIVE IntGroups(_)
IntGroups(n) == IF n = 0 THEN << >> ELSE <<n % 128>> \o IntGroups(n \div 128)

\* The number, or Big if it does not fit in 28 bits.
Big == 268435456
GroupsInt(g) ==
    IF Len(g) > 4 THEN Big
    ELSE At(g, 0) + 128 * (At(g, 1) + 128 * (At(g, 2) + 128 * At(g, 3)))

\* Minimal varint.
EncGroups(g) ==
    LET h == IF g = << >> THEN <<0>> ELSE g
    IN  BOf([i \in 1..Len(h) |-> IF i < Len(h) THEN h[i] + 128 ELSE h[i]])

EncInt(n) == EncGroups(IntGroups(n))

\* Field number f < 2^29, wire type w.
TagGroups(f, w) == <<(f % 16) * 8 + w>> \o IntGroups(f \div 16)
EncTag(f, w) == EncGroups(TagGroups(f, w))
TagLen(f) == Len(TagGroups(f, 0))

-----------------------------------------------------------------------------
(* Typed scalars. Value: little-endian bytes for numbers (one byte 0/1 for   *)
(* bool), a byte string for string, bytes and msg.                           *)

HalveLE(b) == [i \in 1..Len(b) |-> (b[i] \div 2) + 128 * (At(b, i) % 2)]
DoubleLE(b) == [i \in 1..Len(b) |->
                   ((b[i] * 2) % 256) + (IF i = 1 THEN 0 ELSE b[i - 1] \div 128)]
NotLE(b) == [i \in 1..Len(b) |-> 255 - b[i]]
ZigZag(b) == IF b[Len(b)] >= 128 THEN NotLE(DoubleLE(b)) ELSE DoubleLE(b)
UnZigZag(b) == IF b[1] % 2 = 1 THEN NotLE(HalveLE(b)) ELSE HalveLE(b)

\* The varint payload that protobuf prescribes for a value of kind k.
ScalarGroups(k, v) ==
    CASE k = "int32" -> LEToGroups(v \o [i \in 1..4 |-> IF v[4] >= 128 THEN 255 ELSE 0])
      [] k \in {"sint32", "sint64"} -> LEToGroups(ZigZag(v))
      [] OTHER -> LEToGroups(v)

\* What a varint payload means for kind k. Numbers are truncated as by a cast.
\* For sint32 beyond 32 bits implementations differ, and nothing is prescribed.
Open == <<-1>>
ScalarOf(k, g) ==
    CASE k = "bool" -> IF g = << >> THEN <<0>> ELSE <<1>>
      [] k = "sint32" -> IF Len(g) > 5 \/ At(g, 4) > 15 THEN Open
                         ELSE UnZigZag(GroupsToLE(g, 4))
      [] k = "sint64" -> UnZigZag(GroupsToLE(g, 8))
      [] OTHER -> GroupsToLE(g, WidthOf(k))

\* The payload (in the form that Parse yields) and the bytes after the tag.
Payload(k, v) == IF WireOf(k) = WVarint THEN ScalarGroups(k, v) ELSE v
EncPayload(k, v) ==
    CASE WireOf(k) = WVarint -> EncGroups(ScalarGroups(k, v))
      [] WireOf(k) = WBytes -> BCat(EncInt(BLen(v)), v)
      [] OTHER -> BOf(v)
EncField(f, k, v) == BCat(EncTag(f, WireOf(k)), EncPayload(k, v))

-----------------------------------------------------------------------------
(* Parsing.                                                                  *)

\* st: "ok", "short" or "over" (more than 64 bits). g: groups. c: cursor after.
RECURSIVE ReadVarint(_, _, _)
ReadVarint(s, c, acc) ==
    IF Len(acc) = 10 THEN [st |-> "over", g |-> << >>, c |-> c, n |-> 10]
    ELSE IF AtEnd(s, c) THEN [st |-> "short", g |-> << >>, c |-> c, n |-> Len(acc)]
    ELSE LET b == ByteAt(s, c)
         IN  IF b >= 128 THEN ReadVarint(s, Next1(s, c), Append(acc, b - 128))
             ELSE IF Len(acc) = 9 /\ b > 1
                  THEN [st |-> "over", g |-> << >>, c |-> c, n |-> 10]
                  ELSE [st |-> "ok", g |-> Trim(Append(acc, b)), c |-> Next1(s, c),
                        n |-> Len(acc) + 1]

RECURSIVE Plain(_)
Plain(s) == IF s = << >> THEN << >>
            ELSE [i \in 1..s[1][2] |-> s[1][1]] \o Plain(SubSeq(s, 2, Len(s)))

\* Field number of a tag: Big if it needs more than 28 bits.
TagField(g) ==
    IF Len(g) > 5 \/ At(g, 4) > 15 THEN Big
    ELSE At(g, 0) \div 8
           + 16 * (At(g, 1) + 128 * (At(g, 2) + 128 * (At(g, 3) + 128 * At(g, 4))))

\* One field at cursor c. A record has the field number f, the wire type w, the
\* payload v (groups for a varint, little-endian bytes for fixed width, a byte
\* string for length-delimited), its encoded length n, and the length t of its
\* tag. bad is the reason why there is no field, or "".
NoField(why) == [bad |-> why, rec |-> << >>, c |-> Start]
Field(f, w, v, t, n, c) ==
    [bad |-> "", rec |-> [f |-> f, w |-> w, v |-> v, t |-> t, n |-> n], c |-> c]

ReadFixed(s, c, tag, k) ==
    LET d == Forward(s, c[1], c[2], k)
    IN  IF ~d[3] THEN NoField("short value")
        ELSE Field(TagField(tag.g), At(tag.g, 0) % 8,
                   Plain(BBetween(s, c, <<d[1], d[2]>>)), tag.n, tag.n + k, <<d[1], d[2]>>)

ReadField(s, c) ==
    LET tag == ReadVarint(s, c, << >>)
        w == At(tag.g, 0) % 8
    IN  IF tag.st # "ok" THEN NoField(tag.st \o " tag")
        ELSE IF w \notin WireTypes THEN NoField("wire type")
        ELSE IF TagField(tag.g) = 0 THEN NoField("field number 0")
        ELSE CASE w = WFixed32 -> ReadFixed(s, tag.c, tag, 4)
               [] w = WFixed64 -> ReadFixed(s, tag.c, tag, 8)
               [] w = WVarint ->
                    LET x == ReadVarint(s, tag.c, << >>)
                    IN  IF x.st # "ok" THEN NoField(x.st \o " value")
                        ELSE Field(TagField(tag.g), w, x.g, tag.n, tag.n + x.n, x.c)
               [] OTHER ->
                    LET x == ReadVarint(s, tag.c, << >>)
                        m == GroupsInt(x.g)
                        d == IF x.st # "ok" \/ m = Big THEN <<1, 0, FALSE>>
                             ELSE Forward(s, x.c[1], x.c[2], m)
                    IN  IF x.st # "ok" THEN NoField(x.st \o " length")
                        ELSE IF ~d[3] THEN NoField("short data")
                        ELSE Field(TagField(tag.g), w, BBetween(s, x.c, <<d[1], d[2]>>),
                                   tag.n, tag.n + x.n + m, <<d[1], d[2]>>)

\* The next k fields; then twice as many, and so on. (TLC takes time that is
\* quadratic in the depth of a recursion.)
ParseSome(s, a, k) ==
    FoldLeft(LAMBDA x, i :
               IF x.bad # "" \/ AtEnd(s, x.c) THEN x
               ELSE LET r == ReadField(s, x.c)
                    IN  IF r.bad # "" THEN [x EXCEPT !.bad = r.bad]
                        ELSE [bad |-> "", recs |-> Append(x.recs, r.rec), c |-> r.c],
             a, [i \in 1..k |-> i])

RECURSIVE ParseFrom(_, _, _)
ParseFrom(s, a, k) ==
    IF a.bad # "" \/ AtEnd(s, a.c) THEN a
    ELSE ParseFrom(s, ParseSome(s, a, k), 2 * k)

\* bad = "" exactly if s is well-formed; recs are its fields in order.
Parse(s) == ParseFrom(s, [bad |-> "", recs |-> << >>, c |-> Start], 4)
WellFormed(s) == Parse(s).bad = ""
=============================================================================
