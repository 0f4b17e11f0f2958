------------------------------- MODULE MCRead -------------------------------
(* Readers of one message. Up to Writes operations build it; from then on     *)
(* Readers call accessors, advance iterators and encode, in any interleaving, *)
(* each with iterators of its own. An iterator is what it is in the code: the *)
(* rest of the message, from the length of the next element on.               *)
(*                                                                            *)
(* Every complete behaviour is emitted: the operations and the schedule.      *)
EXTENDS Message, Json, Pools

CONSTANTS Writes, Reads, Readers

VARIABLES hist,    \* the operations so far
          sched,   \* the reads so far
          its,     \* reader -> field -> position of the iterator, or 0: none
          got      \* reader -> field -> what the iterator has yielded

rvars == <<vars, hist, sched, its, got>>

NoIters == [r \in 1..Readers |-> [f \in Iterable(Schema) |-> 0]]
RInit == /\ Init /\ hist = << >> /\ sched = << >> /\ its = NoIters
         /\ got = [r \in 1..Readers |-> [f \in Iterable(Schema) |-> << >>]]

Building == sched = << >> /\ Len(hist) < Writes
Did(op, f, v) == hist' = Append(hist, [op |-> op, f |-> f, v |-> v]) /\ UNCHANGED <<sched, its, got>>

WSet(f, v) == Building /\ Set(f, v) /\ Did("set", f, v)
WPush(f, v) == Building /\ Push1(f, v) /\ Did("app", f, v)
WDecode(b) == Building /\ Decode(b) /\ Did("dec", 0, b)

\* Readers are interchangeable: a new one comes in order.
Seen == {sched[i].r : i \in DOMAIN sched}
May(r) == /\ valid /\ Len(hist) = Writes /\ Len(sched) < Reads
          /\ \A q \in 1..(r - 1) : q \in Seen
Read(r, a, f) == sched' = Append(sched, [r |-> r, a |-> a, f |-> f]) /\ UNCHANGED <<vars, hist>>

Get(r, f) == May(r) /\ Read(r, "get", f) /\ UNCHANGED <<its, got>>
Enc(r) == May(r) /\ Read(r, "enc", 0) /\ UNCHANGED <<its, got>>
Begin(r, f) ==
    /\ May(r) /\ its[r][f] = 0
    /\ its' = [its EXCEPT ![r][f] = LET at == OGet(msg.off, f) IN IF at = << >> THEN -1 ELSE at[1]]
    /\ Read(r, "iter", f) /\ UNCHANGED got
Step(r, f) ==
    /\ May(r) /\ its[r][f] # 0
    /\ Read(r, "next", f)
    /\ IF its[r][f] = -1 THEN UNCHANGED <<its, got>>
       ELSE LET s == BDrop(msg.buf, its[r][f])
                x == ReadVarint(s, Start, << >>)
                d == Forward(s, x.c[1], x.c[2], GroupsInt(x.g))
                nxt == NextOf(s, <<d[1], d[2]>>, f)
            IN  /\ got' = [got EXCEPT ![r][f] = Append(@, BBetween(s, x.c, <<d[1], d[2]>>))]
                /\ its' = [its EXCEPT ![r][f] = IF nxt = << >> THEN -1
                                                ELSE @ + BLen(BBetween(s, Start, nxt))]

RNext ==
    \/ \E f \in Singular(Schema) : \E v \in SetPool(f) : WSet(f, v)
    \/ \E f \in Iterable(Schema) : \E v \in AppPool(f) : WPush(f, v)
    \/ \E b \in BufPool : WDecode(b)
    \/ \E r \in 1..Readers : \/ Enc(r)
                             \/ \E f \in Singular(Schema) : Get(r, f)
                             \/ \E f \in Iterable(Schema) : Begin(r, f) \/ Step(r, f)

RSpec == RInit /\ [][RNext]_rvars

\* C13: reading writes nothing, whoever reads what.
ReadsArePure == [][sched' # sched => UNCHANGED <<msg, want, occ, valid>>]_rvars

\* C06, C13: each iterator yields the elements in order, and ends after them,
\* whatever the others do.
Prefix(s, t) == Len(s) <= Len(t) /\ s = SubSeq(t, 1, Len(s))
Yields == valid => \A r \in 1..Readers, f \in Iterable(Schema) :
             /\ Prefix(got[r][f], want.rep[f])
             /\ its[r][f] = -1 => got[r][f] = want.rep[f]

Emitted == Len(sched) = Reads => PrintT("@T " \o ToJson([h |-> hist, q |-> sched]))
=============================================================================
