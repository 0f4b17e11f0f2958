------------------------------- MODULE Request --------------------------------
(* What a compiler's request says, from its bytes: protobuf's plugin.proto    *)
(* and descriptor.proto.                                                      *)
EXTENDS Wire, FiniteSets, TLC

\* Declared fields: wire type and, for a nested message, its type; the values of
\* an enum; whether it may be packed.
Declared(w, m, e, p) == [w |-> w, m |-> m, e |-> e, p |-> p]
Str == Declared(WBytes, "", {}, FALSE)
Num == Declared(WVarint, "", {}, FALSE)
Dbl == Declared(WFixed64, "", {}, FALSE)
Ints == Declared(WVarint, "", {}, TRUE)
N(m) == Declared(WBytes, m, {}, FALSE)
E(s) == Declared(WVarint, "", s, FALSE)

\* Fields numbers of one declaration, and all of them together.
On(ns, d) == [i \in ns |-> d]
Uninterpreted == 999 :> N("uninterpreted")
Interval == On({1, 2}, Num)
Shape(t) ==
    CASE t = "request" -> On({1, 2}, Str) @@ (3 :> N("version")) @@ (15 :> N("file"))
      [] t = "version" -> On(1..3, Num) @@ (4 :> Str)
      [] t = "file" -> On({1, 2, 3, 12}, Str) @@ On({10, 11}, Ints) @@ (4 :> N("message")) @@ (5 :> N("enum"))
                       @@ (6 :> N("service")) @@ (7 :> N("field")) @@ (8 :> N("file options")) @@ (9 :> N("source"))
      [] t = "message" -> On({1, 10}, Str) @@ On({2, 6}, N("field")) @@ (3 :> N("message")) @@ (4 :> N("enum"))
                          @@ (5 :> N("extension range")) @@ (7 :> N("message options")) @@ (8 :> N("oneof"))
                          @@ (9 :> N("range"))
      [] t = "extension range" -> Interval @@ (3 :> N("options"))
      [] t = "range" -> Interval
      [] t = "field" -> On({1, 2, 6, 7, 10}, Str) @@ On({3, 9}, Num) @@ (4 :> E(1..3)) @@ (5 :> E(1..18))
                        @@ (8 :> N("field options"))
      [] t = "oneof" -> (1 :> Str) @@ (2 :> N("options"))
      [] t = "enum" -> On({1, 5}, Str) @@ (2 :> N("value")) @@ (3 :> N("enum options")) @@ (4 :> N("range"))
      [] t = "value" -> (1 :> Str) @@ (2 :> Num) @@ (3 :> N("value options"))
      [] t = "service" -> (1 :> Str) @@ (2 :> N("method")) @@ (3 :> N("service options"))
      [] t = "method" -> On(1..3, Str) @@ (4 :> N("method options")) @@ On({5, 6}, Num)
      [] t = "file options" -> On({1, 8, 11, 36, 37, 39, 40, 41, 44, 45}, Str)
                               @@ On({10, 16, 17, 18, 20, 23, 27, 31, 42}, Num) @@ (9 :> E(1..3)) @@ Uninterpreted
      [] t = "message options" -> On({1, 2, 3, 7}, Num) @@ Uninterpreted
      [] t = "field options" -> On({2, 3, 5, 10}, Num) @@ On({1, 6}, E(0..2)) @@ Uninterpreted
      [] t = "options" -> Uninterpreted
      [] t = "enum options" -> On({2, 3}, Num) @@ Uninterpreted
      [] t = "value options" -> (1 :> Num) @@ Uninterpreted
      [] t = "service options" -> (33 :> Num) @@ Uninterpreted
      [] t = "method options" -> (33 :> Num) @@ (34 :> E(0..2)) @@ Uninterpreted
      [] t = "uninterpreted" -> (2 :> N("name part")) @@ On({3, 7, 8}, Str) @@ On({4, 5}, Num) @@ (6 :> Dbl)
      [] t = "name part" -> (1 :> Str) @@ (2 :> Num)
      [] t = "source" -> 1 :> N("location")
      [] t = "location" -> On({1, 2}, Ints) @@ On({3, 4, 6}, Str)

\* Proto2 requires both fields of a name part.
Required(t) == IF t = "name part" THEN {1, 2} ELSE {}

\* Definitely not protobuf, whatever else a library supports.
Hopeless == {"short tag", "short value", "short length", "short data", "field number 0"}

\* "yes": a request in the terms above. "no": not a request. "open": it has
\* parts that are not described here.
Worse(a, b) == IF "no" \in {a, b} THEN "no" ELSE IF "open" \in {a, b} THEN "open" ELSE "yes"

\* A packed field is a sequence of varints.
Packed(s) ==
    LET p == Plain(s)
    IN  IF p # << >> /\ p[Len(p)] > 127 THEN "no"
        ELSE IF \E i \in DOMAIN p : i + 8 <= Len(p) /\ \A j \in i..(i + 8) : p[j] > 127 THEN "open"
        ELSE "yes"

\* Not equal to itself.
NaN(b) == b[8] % 128 = 127 /\ b[7] \div 16 = 15 /\ (b[7] % 16 # 0 \/ \E i \in 1..6 : b[i] # 0)

RECURSIVE Understood(_, _)
Understood(s, t) ==
    LET p == Parse(s)
        shape == Shape(t)
        one(r) == IF r.f \notin DOMAIN shape THEN "open"
                  ELSE IF shape[r.f].p /\ r.w = WBytes THEN Packed(r.v)
                  ELSE IF shape[r.f].w # r.w THEN "open"
                  ELSE IF r.w = WFixed64 THEN (IF NaN(r.v) THEN "open" ELSE "yes")
                  ELSE IF shape[r.f].m # "" THEN Understood(r.v, shape[r.f].m)
                  ELSE IF shape[r.f].e # {} /\ GroupsInt(r.v) \notin shape[r.f].e THEN "open"
                  ELSE "yes"
        all == FoldLeft(LAMBDA a, r : Worse(a, one(r)), "yes", p.recs)
        end == IF p.bad = "" THEN "yes" ELSE IF p.bad \in Hopeless THEN "no" ELSE "open"
        missing == Required(t) \ {p.recs[i].f : i \in DOMAIN p.recs}
    IN  Worse(Worse(all, end), IF missing = {} THEN "yes" ELSE "open")

\* The last occurrence of a field, and all of them.
All(s, f) == LET rs == SelectSeq(Parse(s).recs, LAMBDA r : r.f = f /\ r.w = WBytes)
             IN  [i \in DOMAIN rs |-> rs[i].v]
Last1(s, f) == LET a == All(s, f) IN IF a = << >> THEN << >> ELSE a[Len(a)]

\* The names of the files that a request asks output for, and of those that it has.
WantedNames(s) == ToSet(All(s, 1))
FileNames(s) == LET fs == All(s, 15) IN {Last1(fs[i], 1) : i \in DOMAIN fs}
=============================================================================
