------------------------------- MODULE MCPair -------------------------------
(* Several messages of one type that share no memory. The variables of        *)
(* Message.tla are those of the message at hand; the others are set aside.    *)
(* Each message must end up as if it had been alone, whatever is done with    *)
(* the others in between. Every complete behaviour is emitted with what each  *)
(* message must show in the end; the driver runs it in this order, and again  *)
(* with the messages in the hands of goroutines of their own.                 *)
EXTENDS Message, Json, Pools

CONSTANTS Steps, Messages

VARIABLES cur,      \* the message at hand
          aside,    \* message -> its variables, while it is not at hand
          hist      \* the operations so far, with the message of each

pvars == <<vars, cur, aside, hist>>

State == [msg |-> msg, want |-> want, occ |-> occ, valid |-> valid]
New == [msg |-> Fresh, want |-> Empty(Schema), occ |-> [f \in Singular(Schema) |-> 0], valid |-> TRUE]

PInit == Init /\ cur = 1 /\ aside = [m \in 1..Messages |-> New] /\ hist = << >>

\* Messages are interchangeable: a new one comes in order. Taking another one
\* at hand is followed by an operation on it.
Used == {hist[i].o : i \in DOMAIN hist}
Switch(m) ==
    /\ m # cur /\ Len(hist) < Steps /\ cur \in Used
    /\ \A n \in 1..(m - 1) : n \in Used
    /\ hist[Len(hist)].o = cur
    /\ aside' = [aside EXCEPT ![cur] = State, ![m] = New]
    /\ msg' = aside[m].msg /\ want' = aside[m].want /\ occ' = aside[m].occ /\ valid' = aside[m].valid
    /\ cur' = m /\ UNCHANGED hist

Did(op, f, v) ==
    /\ Len(hist) < Steps
    /\ hist' = Append(hist, [o |-> cur, op |-> op, f |-> f, v |-> v])
    /\ UNCHANGED <<cur, aside>>

PNext ==
    \/ \E m \in 1..Messages : Switch(m)
    \/ \E f \in Singular(Schema) : \E v \in SetPool(f) : Set(f, v) /\ Did("set", f, v)
    \/ \E f \in Iterable(Schema) : \E v \in AppPool(f) : Push1(f, v) /\ Did("app", f, v)
    \/ \E b \in BufPool : Decode(b) /\ Did("dec", 0, b)
    \/ msg # Fresh /\ Reset /\ Did("rst", 0, << >>)

PSpec == PInit /\ [][PNext]_pvars

\* What an operation does is a function of the message and the operation alone:
\* run again on a message of its own, the operations on m come out the same.
Apply(s, e) ==
    CASE e.op = "set" -> SetSingle(s, e.f, EncPayload(Schema[e.f].k, e.v))
      [] e.op = "app" -> AppendSingle(s, e.f, EncPayload("msg", e.v))
      [] e.op = "dec" -> DecodeMsg(e.v)
      [] OTHER -> Fresh
Of(m) == IF m = cur THEN State ELSE aside[m]
Alone(m) == FoldLeft(Apply, Fresh, SelectSeq(hist, LAMBDA e : e.o = m))
Independent == \A m \in 1..Messages : Of(m).msg = Alone(m)

AsList(fn) == LET ks == SetToSeq(DOMAIN fn) IN [i \in 1..Len(ks) |-> <<ks[i], fn[ks[i]]>>]
Shows(s) == [ok |-> s.valid, enc |-> s.msg.buf,
             b |-> SetToSeq(s.want.bad),
             s |-> IF s.valid THEN AsList(ReadsOf(s.msg, s.want)) ELSE << >>,
             r |-> IF s.valid THEN AsList(IterAll(s.msg)) ELSE << >>]
Emitted == (Len(hist) = Steps /\ Cardinality(Used) > 1)
               => PrintT("@T " \o ToJson([h |-> hist, m |-> [m \in 1..Messages |-> Shows(Of(m))]]))
=============================================================================
