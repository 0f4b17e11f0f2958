------------------------------- MODULE Message -------------------------------
(* One message as zeropb implements it: the encoded bytes, an array of 16    *)
(* bit offsets in which 0 is "absent" and 65535 is "look in the map", and    *)
(* the overflow map. Each operator below follows one function of the code.   *)
(* Ghost variables hold the contents a user expects.                         *)
EXTENDS Content, TLC

CONSTANT Schema       \* field number -> [k, r]
CONSTANT Sentinel     \* 65535 in the code

Fields == DOMAIN Schema
InArray(o) == o < Sentinel

\* offsets.go: Offsets. arr is total over the declared fields (other field
\* numbers never reach an accessor), map is partial.
NoOffsets == [arr |-> [f \in Fields |-> 0], map |-> << >>]

Without(m, f) == [g \in DOMAIN m \ {f} |-> m[g]]
With(m, f, o) == [g \in DOMAIN m \cup {f} |-> IF g = f THEN o ELSE m[g]]

OGet(o, f) == IF o.arr[f] # Sentinel THEN (IF o.arr[f] = 0 THEN << >> ELSE <<o.arr[f]>>)
              ELSE <<o.map[f]>>

OSet(o, f, x) ==
    IF InArray(x)
    THEN [arr |-> [o.arr EXCEPT ![f] = x],
          map |-> IF o.arr[f] = Sentinel THEN Without(o.map, f) ELSE o.map]
    ELSE [arr |-> [o.arr EXCEPT ![f] = Sentinel], map |-> With(o.map, f, x)]

\* A message value: buf and off.
Fresh == [buf |-> BEmpty, off |-> NoOffsets]

-----------------------------------------------------------------------------
(* zeropb.go: setSingle, appendSingle, Decode; generated Reset.              *)

\* Length of the field data of wire type w that starts at byte x.
OldLen(buf, x, w) ==
    CASE w = WFixed32 -> 4
      [] w = WFixed64 -> 8
      [] w = WVarint -> ReadVarint(BDrop(buf, x), Start, << >>).n
      [] OTHER -> LET r == ReadVarint(BDrop(buf, x), Start, << >>)
                  IN  r.n + GroupsInt(r.g)

\* findTag: where the tag that ends at byte x begins.
RECURSIVE FindTag(_, _, _, _)
FindTag(buf, c, pos, x) ==
    LET r == ReadField(buf, c)
    IN  IF pos + r.rec.t >= x THEN pos ELSE FindTag(buf, r.c, pos + r.rec.n, x)

TagBegin(buf, x, tag) ==
    IF BSub(buf, x - BLen(tag), x) = tag THEN x - BLen(tag) ELSE FindTag(buf, Start, 0, x)

Adjust(o, end, removed) ==
    LET a == [o EXCEPT !.arr = [f \in Fields |->
                  IF @[f] # Sentinel /\ @[f] > end THEN @[f] - removed ELSE @[f]]]
        moved == {f \in DOMAIN o.map : o.map[f] > end}
    IN  FoldLeft(LAMBDA q, f : OSet(q, f, o.map[f] - removed), a, SetToSeq(moved))

\* The wire type of the occurrence at x, whose tag begins at begin.
WireAt(buf, begin, x, tag, w) ==
    IF begin = x - BLen(tag) /\ BSub(buf, begin, x) = tag THEN w
    ELSE At(ReadVarint(BDrop(buf, begin), Start, << >>).g, 0) % 8

SetSingle(m, f, data) ==
    LET w == WireOf(Schema[f].k)
        tag == EncTag(f, w)
        at == OGet(m.off, f)
    IN  IF at = << >>
        THEN [buf |-> BCat(BCat(m.buf, tag), data),
              off |-> OSet(m.off, f, BLen(m.buf) + BLen(tag))]
        ELSE LET x == at[1]
                 begin == TagBegin(m.buf, x, tag)
                 oldW == WireAt(m.buf, begin, x, tag, w)
                 old == OldLen(m.buf, x, oldW)
             IN  IF oldW = w /\ old = BLen(data)
                 THEN [m EXCEPT !.buf = BOverwrite(@, x, data)]
                 ELSE LET end == x + old
                          longer == BCat(BCat(m.buf, tag), data)
                          o1 == Adjust(m.off, end, end - begin)
                      IN  [buf |-> BCat(BTake(longer, begin), BDrop(longer, end)),
                           off |-> OSet(o1, f, BLen(m.buf) + BLen(tag) - (end - begin))]

AppendSingle(m, f, data) ==
    LET tag == EncTag(f, WBytes)
    IN  [buf |-> BCat(BCat(m.buf, tag), data),
         off |-> IF OGet(m.off, f) # << >> THEN m.off
                 ELSE OSet(m.off, f, BLen(m.buf) + BLen(tag))]

\* The offsets after a pass over the fields of a buffer. Also used, up to the
\* first malformed field, for what a failed Decode leaves behind.
Scan(recs) ==
    FoldLeft(LAMBDA a, r :
                LET x == a.pos + r.t
                IN  [pos |-> a.pos + r.n,
                     off |-> IF r.f \notin Fields THEN a.off
                             ELSE IF Schema[r.f].r /\ (r.w # WBytes \/ OGet(a.off, r.f) # << >>)
                             THEN a.off
                             ELSE OSet(a.off, r.f, x)],
             [pos |-> 0, off |-> NoOffsets], recs).off

DecodeMsg(buf) == [buf |-> buf, off |-> Scan(Parse(buf).recs)]

-----------------------------------------------------------------------------
(* Accessors: zeropb.go Get*, GetRepeatedNonPacked, FindNextField.           *)

\* What is at the offset need not have the declared wire type; reading it stays
\* inside the message even so.
ReadSingle(m, f) ==
    LET at == OGet(m.off, f)
        k == Schema[f].k
    IN  IF at = << >> THEN << >>
        ELSE LET rest == BDrop(m.buf, at[1])
                 w == WireOf(k)
                 r == ReadVarint(rest, Start, << >>)
                 n == IF w = WFixed32 THEN 4 ELSE 8
             IN  CASE w = WVarint -> <<ScalarOf(k, r.g)>>
                   [] w = WBytes -> IF r.st # "ok" \/ r.n + GroupsInt(r.g) > BLen(rest) THEN << >>
                                    ELSE <<BSub(rest, r.n, r.n + GroupsInt(r.g))>>
                   [] OTHER -> IF BLen(rest) < n THEN << >> ELSE <<Plain(BTake(rest, n))>>

RECURSIVE NextOf(_, _, _)   \* cursor after the tag of the next field f, or << >>
NextOf(s, c, f) ==
    IF AtEnd(s, c) THEN << >>
    ELSE LET tag == ReadVarint(s, c, << >>)
         IN  IF TagField(tag.g) = f /\ At(tag.g, 0) % 8 = WBytes THEN tag.c ELSE NextOf(s, ReadField(s, c).c, f)

RECURSIVE IterFrom(_, _, _, _)
IterFrom(s, c, f, acc) ==
    LET r == ReadVarint(s, c, << >>)
        d == Forward(s, r.c[1], r.c[2], GroupsInt(r.g))
        elem == BBetween(s, r.c, <<d[1], d[2]>>)
        nxt == NextOf(s, <<d[1], d[2]>>, f)
    IN  IF nxt = << >> THEN Append(acc, elem)
        ELSE IterFrom(s, nxt, f, Append(acc, elem))

Iterate(m, f) ==
    LET at == OGet(m.off, f)
    IN  IF at = << >> THEN << >> ELSE IterFrom(BDrop(m.buf, at[1]), Start, f, << >>)

ReadAll(m) == [f \in Singular(Schema) |-> ReadSingle(m, f)]
ReadsOf(m, w) == [f \in Singular(Schema) \ w.bad |-> ReadSingle(m, f)]   \* the defined ones
IterAll(m) == [f \in Iterable(Schema) |-> Iterate(m, f)]

-----------------------------------------------------------------------------
(* The state machine.                                                        *)

VARIABLES msg,     \* the message
          want,    \* ghost: the contents expected by the user
          occ,     \* ghost: how often each singular field occurs
          valid    \* ghost: FALSE after a failed Decode, until Decode or Reset

vars == <<msg, want, occ, valid>>

Init == msg = Fresh /\ want = Empty(Schema) /\ valid = TRUE
        /\ occ = [f \in Singular(Schema) |-> 0]

Set(f, v) ==
    /\ valid
    /\ msg' = SetSingle(msg, f, EncPayload(Schema[f].k, v))
    /\ want' = Assign(want, f, v)
    /\ occ' = [occ EXCEPT ![f] = IF @ = 0 THEN 1 ELSE @]
    /\ UNCHANGED valid

Push1(f, v) ==
    /\ valid
    /\ msg' = AppendSingle(msg, f, EncPayload("msg", v))
    /\ want' = Push(want, f, v)
    /\ UNCHANGED <<occ, valid>>

Decode(b) ==
    LET p == Parse(b)
    IN  /\ msg' = DecodeMsg(b)
        /\ valid' = (p.bad = "")
        /\ want' = OfRecs(Schema, p.recs)
        /\ occ' = Occ(Schema, p.recs)

Reset ==
    /\ msg' = Fresh
    /\ want' = Empty(Schema)
    /\ valid' = TRUE
    /\ occ' = [f \in Singular(Schema) |-> 0]

-----------------------------------------------------------------------------
(* Properties of the design.                                                 *)

IsMessage == IsBytes(msg.buf)

\* C01, C03, C06, C07, C11: what the accessors return is what is expected.
\* (All are read, those that are left open, too.)
Clear(w) == Singular(Schema) \ w.bad
ReadsAgree == valid => LET got == ReadAll(msg)
                       IN  \A f \in Clear(want) : AgreeOpt(got[f], want.sing[f])
ItersAgree == valid => IterAll(msg) = want.rep

\* C02, C10: the bytes always parse to the same contents, unknown fields kept.
EncodingAgrees ==
    valid => LET p == Parse(msg.buf)
             IN  p.bad = "" /\ SameContent(OfRecs(Schema, p.recs), want)

\* C15: no residue.
NoResidue == valid => Occ(Schema, Parse(msg.buf).recs) = occ

\* offsets.go: the map holds exactly the fields whose array entry says so.
MapExact == DOMAIN msg.off.map = {f \in Fields : msg.off.arr[f] = Sentinel}
MapHigh == \A f \in DOMAIN msg.off.map : ~InArray(msg.off.map[f])

\* What the offsets are must not depend on the history (C08).
OffsetsCanonical == valid => msg.off = Scan(Parse(msg.buf).recs)

\* C01 as an action property: an operation on f leaves other fields alone (but for
\* what is read of those that have another wire type).
Untouched(f) ==
    /\ \A g \in Clear(want) \ {f} : ReadSingle(msg', g) = ReadSingle(msg, g)
    /\ \A g \in Iterable(Schema) \ {f} : Iterate(msg', g) = Iterate(msg, g)
=============================================================================
