-------------------------------- MODULE Memory --------------------------------
(* A message, messages that were extracted from it (or from one another), and  *)
(* arguments that are parts of any of them, all in one memory, as in the code: *)
(* slices of arrays, appended to in place if there is room. The copies that    *)
(* make up a setter are made one after the other. What a setter stores must be *)
(* the value that its argument had before the first of them, and a setter of   *)
(* an extracted message may show in the place it came from and nowhere else.   *)
EXTENDS Message, Json, Pools

CONSTANTS Calls, Objects, Parts

VARIABLES heap,    \* arrays
          objs,    \* messages: [sl, off, up]; up: where it was extracted from
          wants,   \* ghost: their contents
          hist

mvars == <<heap, objs, wants, hist>>
View == <<heap, objs, wants>>

-----------------------------------------------------------------------------
(* Slices.                                                                    *)
Slice(a, lo, n, cap) == [a |-> a, lo |-> lo, n |-> n, cap |-> cap]
At2(h, s) == BSub(h[s.a], s.lo, s.lo + s.n)
Write(h, s, at, b) == [h EXCEPT ![s.a] = BOverwrite(@, s.lo + at, b)]

\* Go's append. How much larger a new array is depends on the allocator.
Room == 16
Grow(x, b) ==       \* x = [h, s]
    LET n == x.s.n + BLen(b)
    IN  IF n <= x.s.cap
        THEN [h |-> IF b = BEmpty THEN x.h ELSE Write(x.h, x.s, x.s.n, b), s |-> [x.s EXCEPT !.n = n]]
        ELSE [h |-> Append(x.h, BCat(BCat(At2(x.h, x.s), b), BRep(238, Room))),
              s |-> Slice(Len(x.h) + 1, 0, n, n + Room)]

\* An argument is a value, or a slice whose bytes are read when they are copied.
Val(v) == [v |-> v, s |-> << >>]
Ref(s) == [v |-> BEmpty, s |-> <<s>>]
Bytes(h, arg) == IF arg.s = << >> THEN arg.v ELSE At2(h, arg.s[1])

LenOf(k, h, arg) == IF IsBlob(k) THEN EncInt(BLen(Bytes(h, arg))) ELSE BEmpty

\* setSingle.
StoreEnd(h, s, tag, len, arg) ==
    LET r == Grow(Grow([h |-> h, s |-> s], tag), len) IN Grow(r, Bytes(r.h, arg))

Store(h, o, f, arg) ==
    LET k == Schema[f].k
        w == WireOf(k)
        tag == EncTag(f, w)
        len == LenOf(k, h, arg)
        at == OGet(o.off, f)
        n == o.sl.n
    IN  IF at = << >>
        THEN LET r == StoreEnd(h, o.sl, tag, len, arg)
             IN  [h |-> r.h, o |-> [o EXCEPT !.sl = r.s, !.off = OSet(@, f, n + BLen(tag))]]
        ELSE LET buf == At2(h, o.sl)
                 x == at[1]
                 begin == TagBegin(buf, x, tag)
                 old == OldLen(buf, x, w)
                 val == Bytes(h, arg)
                 end == x + old
             IN  IF old = BLen(len) + BLen(val)
                 THEN LET h1 == IF val = BEmpty THEN h ELSE Write(h, o.sl, x + BLen(len), val)
                      IN  [h |-> IF len = BEmpty THEN h1 ELSE Write(h1, o.sl, x, len), o |-> o]
                 ELSE LET r == StoreEnd(h, o.sl, tag, len, arg)
                          rest == BDrop(At2(r.h, r.s), end)
                      IN  [h |-> Write(r.h, r.s, begin, rest),
                           o |-> [o EXCEPT !.sl = [r.s EXCEPT !.n = begin + BLen(rest)],
                                           !.off = OSet(Adjust(@, end, end - begin), f,
                                                        n + BLen(tag) - (end - begin))]]

\* appendSingle.
StoreNew(h, o, f, arg) ==
    LET tag == EncTag(f, WBytes)
        r == StoreEnd(h, o.sl, tag, LenOf("msg", h, arg), arg)
    IN  [h |-> r.h,
         o |-> [o EXCEPT !.sl = r.s,
                         !.off = IF OGet(@, f) # << >> THEN @ ELSE OSet(@, f, o.sl.n + BLen(tag))]]

-----------------------------------------------------------------------------
Contents(h, o) == OfRecs(Schema, Parse(At2(h, o.sl)).recs)

Live == {i \in DOMAIN objs : objs[i].live}
RECURSIVE Above(_)      \* the messages that i was extracted from
Above(i) == IF objs[i].up = << >> THEN {} ELSE {objs[i].up[1]} \cup Above(objs[i].up[1])
Below(i) == {j \in Live : i \in Above(j)}

\* The contents of those above i, when i has changed: free at the place where
\* it came from, if that changed.
RECURSIVE Through(_, _, _)
Through(h, ws, i) ==
    IF objs[i].up = << >> THEN ws
    ELSE LET p == objs[i].up[1]
             f == objs[i].up[2]
             e == objs[i].up[3]
             got == Contents(h, objs[p])
             w == IF e = 0
                  THEN [ws EXCEPT ![p].sing[f] = IF got.sing[f] = << >> THEN @ ELSE got.sing[f]]
                  ELSE [ws EXCEPT ![p].rep[f][e] = IF e \in DOMAIN got.rep[f] THEN got.rep[f][e] ELSE @]
         IN  Through(h, w, p)

\* Message i has become r.o in memory r.h, and its contents w.
Becomes(i, r, w) ==
    /\ heap' = r.h
    /\ objs' = [j \in DOMAIN objs |-> IF j = i THEN r.o
                                      ELSE IF j \in Below(i) THEN [objs[j] EXCEPT !.live = FALSE]
                                      ELSE objs[j]]
    /\ wants' = Through(r.h, [wants EXCEPT ![i] = w], i)

\* Something to decode, with some room behind it.
MInit ==
    \E b \in BufPool : \E room \in {0, 40} :
        /\ heap = <<BCat(b, BRep(165, room))>>
        /\ objs = << [sl |-> Slice(1, 0, BLen(b), BLen(b) + room), off |-> Scan(Parse(b).recs),
                      up |-> << >>, live |-> TRUE] >>
        /\ wants = <<OfRecs(Schema, Parse(b).recs)>>
        /\ hist = << [op |-> "dec", o |-> 1, f |-> 0, a |-> room, b |-> 0, v |-> b] >>
        /\ Init     \* of Message, not used

May(i) == i \in Live /\ Len(hist) <= Calls
Did(op, i, f, a, b, v) == hist' = Append(hist, [op |-> op, o |-> i, f |-> f, a |-> a, b |-> b, v |-> v])
                          /\ UNCHANGED vars

\* Setters with values of their own.
SetVal(i, f, v) ==
    /\ May(i)
    /\ Becomes(i, Store(heap, objs[i], f, Val(IF IsBlob(Schema[f].k) THEN v ELSE EncPayload(Schema[f].k, v))),
               Assign(wants[i], f, v))
    /\ Did("set", i, f, 0, 0, v)
PushVal(i, f, v) ==
    /\ May(i)
    /\ Becomes(i, StoreNew(heap, objs[i], f, Val(v)), Push(wants[i], f, v))
    /\ Did("app", i, f, 0, 0, v)

\* Setters with a part of what j encodes to: bytes from a on, b of them.
SetPart(i, f, j, a, b) ==
    /\ May(i) /\ j \in Live /\ a + b <= objs[j].sl.n
    /\ LET s == objs[j].sl
           arg == Ref(Slice(s.a, s.lo + a, b, b))
       IN  Becomes(i, Store(heap, objs[i], f, arg), Assign(wants[i], f, Bytes(heap, arg)))
    /\ Did("part", i, f, a, b, j)

\* Setters with another message, or the message itself.
SetObj(i, f, j) ==
    /\ May(i) /\ j \in Live
    /\ Becomes(i, Store(heap, objs[i], f, Ref(objs[j].sl)), Assign(wants[i], f, At2(heap, objs[j].sl)))
    /\ Did("setobj", i, f, 0, 0, j)
PushObj(i, f, j) ==
    /\ May(i) /\ j \in Live
    /\ Becomes(i, StoreNew(heap, objs[i], f, Ref(objs[j].sl)), Push(wants[i], f, At2(heap, objs[j].sl)))
    /\ Did("appobj", i, f, 0, 0, j)

\* Accessors and iterators: element e of field f, 0 for a singular one. Its
\* capacity is its length.
RECURSIVE Nth(_, _, _, _)       \* offset of the length of the e-th element
Nth(buf, f, x, e) ==
    IF e = 1 THEN x
    ELSE LET s == BDrop(buf, x)
             r == ReadVarint(s, Start, << >>)
             d == Forward(s, r.c[1], r.c[2], GroupsInt(r.g))
             nxt == NextOf(s, <<d[1], d[2]>>, f)
         IN  Nth(buf, f, x + BLen(BBetween(s, Start, nxt)), e - 1)

Extract(i, f, e) ==
    /\ May(i) /\ Len(objs) < Objects
    /\ \A j \in Live : objs[j].up # <<i, f, e>>
    /\ IF e = 0 THEN wants[i].sing[f] # << >> ELSE e \in DOMAIN wants[i].rep[f]
    /\ LET o == objs[i]
           buf == At2(heap, o.sl)
           x == Nth(buf, f, OGet(o.off, f)[1], IF e = 0 THEN 1 ELSE e)
           r == ReadVarint(BDrop(buf, x), Start, << >>)
           n == GroupsInt(r.g)
           v == BSub(buf, x + r.n, x + r.n + n)
       IN  /\ Parse(v).bad = ""
           /\ objs' = Append(objs, [sl |-> Slice(o.sl.a, o.sl.lo + x + r.n, n, n),
                                    off |-> Scan(Parse(v).recs), up |-> <<i, f, e>>, live |-> TRUE])
           /\ wants' = Append(wants, OfRecs(Schema, Parse(v).recs))
           /\ UNCHANGED heap
           /\ Did("ext", i, f, e, 0, Len(objs) + 1)

Subs == {f \in Singular(Schema) : Schema[f].k = "msg"}
Texts == {f \in Singular(Schema) : Schema[f].k \in {"string", "bytes"}}

MNext ==
    \/ \E i \in 1..Objects : \E f \in Singular(Schema) : \E v \in SetPool(f) : SetVal(i, f, v)
    \/ \E i \in 1..Objects : \E f \in Iterable(Schema) : \E v \in AppPool(f) : PushVal(i, f, v)
    \/ \E i, j \in 1..Objects : \E f \in Texts :
          i \in Live /\ j \in Live /\ \E a \in 0..objs[j].sl.n : \E b \in 0..Parts : SetPart(i, f, j, a, b)
    \/ \E i, j \in 1..Objects : \E f \in Subs : SetObj(i, f, j)
    \/ \E i, j \in 1..Objects : \E f \in Iterable(Schema) : PushObj(i, f, j)
    \/ \E i \in 1..Objects : (\E f \in Subs : Extract(i, f, 0)) \/ (\E f \in Iterable(Schema) : \E e \in 1..3 : Extract(i, f, e))

MSpec == MInit /\ [][MNext]_<<mvars, vars>>

-----------------------------------------------------------------------------
\* C12: every message has the contents it must have, and is well-formed. (That
\* those of the messages above follow only where they may is in Through.)
Intact ==
    \A i \in Live :
        LET b == At2(heap, objs[i].sl)
            p == Parse(b)
        IN  /\ p.bad = "" /\ SameContent(OfRecs(Schema, p.recs), wants[i])
            /\ objs[i].off = Scan(p.recs)

\* Slices are inside their arrays, and no message can append into another's memory
\* or into that of the array behind it.
Inside ==
    \A i \in Live : LET s == objs[i].sl IN
        /\ s.n <= s.cap /\ s.lo + s.cap <= BLen(heap[s.a])
        /\ objs[i].up # << >> => \A j \in Live \ {i} :
              LET t == objs[j].sl
              IN  (j \notin Above(i) /\ i \notin Above(j) /\ t.a = s.a)
                    => (s.lo + s.cap <= t.lo \/ t.lo + t.cap <= s.lo)

EmitStep ==
    PrintT("@T " \o ToJson([h |-> hist', o |-> [i \in DOMAIN objs' |->
        [live |-> objs'[i].live, enc |-> IF objs'[i].live THEN At2(heap', objs'[i].sl) ELSE << >>]]]))
=============================================================================
