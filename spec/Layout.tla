------------------------------- MODULE Layout -------------------------------
(* Where the fields of a message lie, and the two maps that remember it, for   *)
(* messages of any length: an inductive invariant of Offsets and setSingle     *)
(* that Apalache proves for all integers (Message.tla has the bytes, and       *)
(* pools of lengths).                                                          *)
(*                                                                             *)
(* A field f that is present has its tag at beg[f] .. off[f]-1 and its value   *)
(* (with its length) at off[f] .. end[f]-1. What lies between the fields is    *)
(* arbitrary: unknown fields, earlier occurrences, later elements.             *)
EXTENDS Integers

CONSTANTS
  \* @type: Set(Int);
  Fields

VARIABLES
  \* @type: Int;
  len,
  \* @type: Set(Int);
  present,
  \* @type: Int -> Int;
  beg,
  \* @type: Int -> Int;
  off,
  \* @type: Int -> Int;
  end,
  \* The array of 16 bit offsets, and the map for those that do not fit.
  \* @type: Int -> Int;
  a,
  \* @type: Set(Int);
  inMap,
  \* @type: Int -> Int;
  m

\* Each action concerns one field and adjusts each other one by itself, so three
\* are all that can matter.
Three == Fields = 1..3
Four == Fields = 1..4

Unset == 0
InMap == 65535

-----------------------------------------------------------------------------
(* The code. *)

U16(x) == x % 65536

\* Offsets.Get
Stored(f) == IF a[f] # InMap THEN a[f] ELSE m[f]
Known(f) == a[f] # Unset

\* What Offsets.Set leaves in the array for an offset.
InArray(x) == IF x <= 65534 THEN x ELSE InMap

-----------------------------------------------------------------------------
TypeOK ==
  /\ len \in Nat
  /\ present \in SUBSET Fields
  /\ inMap \in SUBSET Fields
  /\ beg \in [Fields -> Int]
  /\ off \in [Fields -> Int]
  /\ end \in [Fields -> Int]
  /\ a \in [Fields -> Int]
  /\ m \in [Fields -> Int]

\* The fields do not overlap.
\* @type: (Set(Int), Int -> Int, Int -> Int, Int -> Int, Int) => Bool;
Disjoint(p, b, o, e, l) ==
  /\ \A f \in p : 0 <= b[f] /\ b[f] < o[f] /\ o[f] < e[f] /\ e[f] <= l
  /\ \A f \in p : \A g \in p : f # g => (e[f] <= b[g] \/ e[g] <= b[f])

\* The maps say where the fields are, those that are there and no others.
Remembered ==
  \A f \in Fields :
    /\ a[f] \in 0..65535
    /\ Known(f) = (f \in present)
    /\ f \in present => Stored(f) = off[f]

\* The map holds what does not fit into the array and nothing else: what stays
\* behind would come back when offsets are adjusted.
Canonical ==
  \A f \in Fields :
    /\ (f \in inMap) = (a[f] = InMap)
    /\ f \notin inMap => m[f] = 0
    /\ f \notin present => beg[f] = 0 /\ off[f] = 0 /\ end[f] = 0

Inv ==
  /\ TypeOK
  /\ Disjoint(present, beg, off, end, len)
  /\ Remembered
  /\ Canonical

-----------------------------------------------------------------------------
Init ==
  /\ len = 0
  /\ present = {}
  /\ inMap = {}
  /\ beg = [f \in Fields |-> 0]
  /\ off = [f \in Fields |-> 0]
  /\ end = [f \in Fields |-> 0]
  /\ a = [f \in Fields |-> Unset]
  /\ m = [f \in Fields |-> 0]

\* A field that is absent, or the first element of a repeated one, is written
\* to the end of the message.
Add(f, tagLen, valLen) ==
  LET o == len + tagLen IN
  /\ ~Known(f)
  /\ len' = o + valLen
  /\ present' = present \union {f}
  /\ beg' = [beg EXCEPT ![f] = len]
  /\ off' = [off EXCEPT ![f] = o]
  /\ end' = [end EXCEPT ![f] = o + valLen]
  /\ a' = [a EXCEPT ![f] = InArray(o)]
  /\ inMap' = IF o <= 65534 THEN inMap \ {f} ELSE inMap \union {f}
  /\ m' = IF o <= 65534 THEN m ELSE [m EXCEPT ![f] = o]

\* A later element, which no offset points to.
Another(tagLen, valLen) ==
  /\ len' = len + tagLen + valLen
  /\ UNCHANGED <<present, beg, off, end, a, inMap, m>>

\* The new value has the length of the old one: it is written in its place.
InPlace(f) ==
  /\ Known(f)
  /\ UNCHANGED <<len, present, beg, off, end, a, inMap, m>>

\* The new value is appended, the old one removed, offsets behind it adjusted.
Move(f, tagLen, valLen) ==
  LET offset == Stored(f)
      fieldBegin == beg[f]
      fieldEnd == end[f]
      removed == fieldEnd - fieldBegin
      newOffset == len + tagLen
      \* for fieldID, offset := range offsets.a
      a1 == [g \in Fields |-> IF a[g] # InMap /\ a[g] > fieldEnd THEN U16(a[g] - U16(removed)) ELSE a[g]]
      \* for fieldID, offset := range *offsets.m
      hit == {g \in inMap : m[g] > fieldEnd}
      a2 == [g \in Fields |-> IF g \in hit THEN InArray(m[g] - removed) ELSE a1[g]]
      in2 == {g \in inMap : ~(g \in hit /\ m[g] - removed <= 65534)}
      m2 == [g \in Fields |-> IF g \notin in2 THEN 0 ELSE IF g \in hit THEN m[g] - removed ELSE m[g]]
      o == newOffset - removed
      \* where things really are afterwards
      Moved(x) == IF x >= fieldEnd THEN x - removed ELSE x
  IN
  /\ Known(f)
  /\ offset = off[f]
  /\ len' = newOffset + valLen - removed
  /\ present' = present
  /\ beg' = [g \in Fields |-> IF g = f THEN len - removed ELSE Moved(beg[g])]
  /\ off' = [g \in Fields |-> IF g = f THEN o ELSE Moved(off[g])]
  /\ end' = [g \in Fields |-> IF g = f THEN o + valLen ELSE Moved(end[g])]
  /\ a' = [a2 EXCEPT ![f] = InArray(o)]
  /\ inMap' = IF o <= 65534 THEN in2 \ {f} ELSE in2 \union {f}
  /\ m' = [m2 EXCEPT ![f] = IF o <= 65534 THEN 0 ELSE o]

\* Any input that parses.
Decode ==
  \E p \in SUBSET Fields : \E l \in Nat :
  \E b \in [Fields -> Int] : \E o \in [Fields -> Int] : \E e \in [Fields -> Int] :
    /\ Disjoint(p, b, o, e, l)
    /\ \A f \in Fields \ p : b[f] = 0 /\ o[f] = 0 /\ e[f] = 0
    /\ len' = l
    /\ present' = p
    /\ beg' = b
    /\ off' = o
    /\ end' = e
    /\ a' = [f \in Fields |-> IF f \in p THEN InArray(o[f]) ELSE Unset]
    /\ inMap' = {f \in p : o[f] > 65534}
    /\ m' = [f \in Fields |-> IF f \in p /\ o[f] > 65534 THEN o[f] ELSE 0]

Reset ==
  /\ len' = 0
  /\ present' = {}
  /\ a' = [f \in Fields |-> Unset]
  /\ inMap' = {}
  /\ beg' = [f \in Fields |-> 0]
  /\ off' = [f \in Fields |-> 0]
  /\ end' = [f \in Fields |-> 0]
  /\ m' = [f \in Fields |-> 0]

Next ==
  \/ \E f \in Fields : \E t \in 1..5 : \E v \in Nat : v >= 1 /\ (Add(f, t, v) \/ Move(f, t, v))
  \/ \E f \in Fields : InPlace(f)
  \/ \E t \in 1..5 : \E v \in Nat : v >= 1 /\ Another(t, v)
  \/ Decode
  \/ Reset
=============================================================================
