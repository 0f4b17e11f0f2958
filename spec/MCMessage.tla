------------------------------ MODULE MCMessage ------------------------------
(* Exhaustive exploration of Message.tla over finite pools of values and     *)
(* input buffers, up to Depth operations. Checks the design properties and,  *)
(* with Emit, prints one line of JSON per transition: the operations that    *)
(* lead to it and what the real code must show afterwards. The replay driver *)
(* steps the real code through them.                                         *)
EXTENDS Message, Json, Pools

CONSTANTS Depth, Emit

VARIABLES hist,
          lay      \* LayoutOf(msg)
mcvars == <<vars, hist, lay>>
View == vars

\* Where the fields lie, for the refinement of Layout.tla.
LayoutOf(m) ==
    LET at == TLCEval([f \in Fields |-> OGet(m.off, f)])
        here == {f \in Fields : at[f] # << >>}
        \* Repeated fields are length-delimited wherever an offset points to them.
        w == [f \in Fields |-> WireOf(Schema[f].k)]
        tag == TLCEval([f \in Fields |-> EncTag(f, w[f])])
        beg == TLCEval([f \in Fields |-> IF f \in here THEN TagBegin(m.buf, at[f][1], tag[f]) ELSE 0])
        end == [f \in Fields |->
                  IF f \in here
                  THEN at[f][1] + OldLen(m.buf, at[f][1], WireAt(m.buf, beg[f], at[f][1], tag[f], w[f]))
                  ELSE 0]
    IN  TLCEval([len |-> BLen(m.buf), present |-> here, beg |-> beg,
                 off |-> [f \in Fields |-> IF f \in here THEN at[f][1] ELSE 0],
                 end |-> end, a |-> m.off.arr, inMap |-> DOMAIN m.off.map,
                 m |-> [f \in Fields |-> IF f \in DOMAIN m.off.map THEN m.off.map[f] ELSE 0]])

MCInit == Init /\ hist = << >> /\ lay = LayoutOf(msg)

\* The bound is a guard of each action, so that simulation can tell them apart.
More == Len(hist) < Depth
\* After a failed Decode no layout is defined.
Did(op, f, v) == /\ hist' = Append(hist, [op |-> op, f |-> f, v |-> v])
                 /\ lay' = IF valid' THEN LayoutOf(msg') ELSE lay
DoSet(f, v) == More /\ Set(f, v) /\ Did("set", f, v)
DoPush(f, v) == More /\ Push1(f, v) /\ Did("app", f, v)
DoDecode(b) == More /\ Decode(b) /\ Did("dec", 0, b)
DoReset == More /\ msg # Fresh /\ Reset /\ Did("rst", 0, << >>)

MCNext ==
    \/ \E f \in Singular(Schema) : \E v \in SetPool(f) : DoSet(f, v)
    \/ \E f \in Iterable(Schema) : \E v \in AppPool(f) : DoPush(f, v)
    \/ \E b \in BufPool : DoDecode(b)
    \/ DoReset

MCSpec == MCInit /\ [][MCNext]_mcvars

Frame ==
    [][LET o == hist'[Len(hist')]
       IN  (Len(hist') > Len(hist) /\ o.op \in {"set", "app"}) => Untouched(o.f)]_mcvars

AsList(fn) == LET ks == SetToSeq(DOMAIN fn) IN [i \in 1..Len(ks) |-> <<ks[i], fn[ks[i]]>>]

\* Each step is one of Layout.tla, where the offsets are proved right for fields of
\* any length.
L == INSTANCE Layout WITH
        len <- lay.len, present <- lay.present, beg <- lay.beg, off <- lay.off,
        end <- lay.end, a <- lay.a, inMap <- lay.inMap, m <- lay.m

LaidOut == valid => L!Inv

LayoutStep(o) ==
    LET k == Schema[o.f].k
        tag == BLen(EncTag(o.f, WireOf(k)))
        val == BLen(EncPayload(k, o.v))
    IN  CASE o.op = "set" -> L!Add(o.f, tag, val) \/ L!Move(o.f, tag, val) \/ L!InPlace(o.f)
          [] o.op = "app" -> L!Add(o.f, tag, val) \/ L!Another(tag, val)
          [] o.op = "rst" -> L!Reset
          [] OTHER -> TRUE      \* dec: LaidOut
Refines == [][Len(hist') > Len(hist) => LayoutStep(hist'[Len(hist')])]_mcvars

EmitStep ==
    Emit => PrintT("@T " \o ToJson([h |-> hist',
                                   ok |-> valid',
                                   enc |-> msg'.buf,
                                   b |-> SetToSeq(want'.bad),
                                   s |-> IF valid' THEN AsList(ReadsOf(msg', want')) ELSE << >>,
                                   r |-> IF valid' THEN AsList(IterAll(msg')) ELSE << >>]))
=============================================================================
