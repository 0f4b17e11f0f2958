------------------------------- MODULE Content -------------------------------
(* What a protobuf user sees: the contents of a message of a given schema.   *)
(*                                                                           *)
(* A schema maps declared field numbers to [k |-> kind, r |-> repeated?].    *)
(* Contents are a record of                                                  *)
(*   sing  field number -> << >> (absent) or <<value>>                       *)
(*   rep   field number of a repeated message field -> sequence of elements  *)
(*   unk   the other fields (not in the schema, repeated scalars, which have *)
(*         no accessor, or would-be elements of a repeated message field     *)
(*         that are not length-delimited), in order, as                      *)
(*         <<number, wire type, payload>>                                    *)
(*   mis   occurrences of singular fields that have another wire type than   *)
(*         the declared one, in order, as in unk                             *)
(*   bad   the fields whose last occurrence is one of those: what their      *)
(*         accessors return is left open, but they must return               *)
(*   odd   "split": a singular embedded message occurred more than once      *)
EXTENDS Wire, TLC

Singular(sch) == {f \in DOMAIN sch : ~sch[f].r}
Iterable(sch) == {f \in DOMAIN sch : sch[f].r /\ sch[f].k = "msg"}
Opaque(sch, f) == f \notin DOMAIN sch \/ (sch[f].r /\ sch[f].k # "msg")

Empty(sch) == [sing |-> [f \in Singular(sch) |-> << >>],
               rep |-> [f \in Iterable(sch) |-> << >>],
               unk |-> << >>, mis |-> << >>, bad |-> {}, odd |-> {}]

Put(c, f, v) == [c EXCEPT !.sing[f] = <<v>>]

\* Assigning f replaces its last occurrence, whatever that is.
RECURSIVE DropLast(_, _)
DropLast(recs, f) ==
    IF recs = << >> THEN << >>
    ELSE IF recs[Len(recs)][1] = f THEN SubSeq(recs, 1, Len(recs) - 1)
    ELSE Append(DropLast(SubSeq(recs, 1, Len(recs) - 1), f), recs[Len(recs)])
Assign(c, f, v) ==
    [Put(c, f, v) EXCEPT !.bad = @ \ {f}, !.mis = IF f \in c.bad THEN DropLast(@, f) ELSE @]
Push(c, f, v) == [c EXCEPT !.rep[f] = Append(@, v)]

\* The value an accessor of f returns.
Value(sch, c, f) == IF c.sing[f] = << >> THEN ZeroOf(sch[f].k) ELSE c.sing[f][1]

\* The meaning of a record's payload for a declared kind of that wire type.
Meaning(k, v) == IF WireOf(k) = WVarint THEN ScalarOf(k, v) ELSE v

AddRec(sch, c, rec) ==
    IF Opaque(sch, rec.f) \/ (sch[rec.f].r /\ rec.w # WBytes)
    THEN [c EXCEPT !.unk = Append(@, <<rec.f, rec.w, rec.v>>)]
    ELSE LET d == sch[rec.f]
         IN  IF rec.w # WireOf(d.k)
             THEN [c EXCEPT !.mis = Append(@, <<rec.f, rec.w, rec.v>>), !.bad = @ \cup {rec.f}]
             ELSE IF d.r THEN Push(c, rec.f, rec.v)
             ELSE LET n == [Put(c, rec.f, Meaning(d.k, rec.v)) EXCEPT !.bad = @ \ {rec.f}]
                  IN  IF d.k = "msg" /\ c.sing[rec.f] # << >>
                      THEN [n EXCEPT !.odd = @ \cup {"split"}]
                      ELSE n

OfRecs(sch, recs) == FoldLeft(LAMBDA c, r : AddRec(sch, c, r), Empty(sch), recs)

\* Values agree; Open leaves the value unspecified.
\* (As strings, because TLC refuses to compare a byte string with <<-1>>.)
IsOpen(x) == Len(x) = 1 /\ ToString(x) = ToString(Open)
Agree(x, y) == x = y \/ IsOpen(x) \/ IsOpen(y)
AgreeOpt(x, y) == x = y \/ (x # << >> /\ y # << >> /\ Agree(x[1], y[1]))

SameSing(c, d) == \A f \in DOMAIN c.sing : AgreeOpt(c.sing[f], d.sing[f])
SameMis(c, d, free) ==      \* except for the fields in free
    LET of(e) == SelectSeq(e.mis, LAMBDA r : r[1] \notin free)
    IN  of(c) = of(d) /\ c.bad \ free = d.bad \ free
SameContent(c, d) == SameSing(c, d) /\ c.rep = d.rep /\ c.unk = d.unk /\ SameMis(c, d, {})

Occurrences(recs, f) == Len(SelectSeq(recs, LAMBDA r : r.f = f))

\* A decoded message in which a singular field occurs n times keeps the
\* occurrences that do not count; occ is the number of occurrences expected.
Occ(sch, recs) == [f \in Singular(sch) |-> Occurrences(recs, f)]
=============================================================================
