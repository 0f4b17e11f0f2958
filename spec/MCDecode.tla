------------------------------- MODULE MCDecode -------------------------------
(* Every byte string over an alphabet, up to a length, as an input to Decode. *)
(* The design properties of Message.tla hold of what the scan finds, and one  *)
(* line per string says whether the real Decode must accept it and what the   *)
(* accessors must then return. The alphabet is chosen by the pool: tags of    *)
(* declared and unknown fields, bad wire types, continuation bytes, lengths.  *)
EXTENDS Message, Json, DPools

CONSTANTS MaxLen, Emit

VARIABLE in
dvars == <<vars, in>>

DInit == Init /\ in = << >>
DNext == Len(in) < MaxLen /\ \E b \in Alphabet :
            /\ in' = Append(in, b)
            /\ Decode(BOf(Append(in, b)))
DSpec == DInit /\ [][DNext]_dvars

AsList(fn) == LET ks == SetToSeq(DOMAIN fn) IN [i \in 1..Len(ks) |-> <<ks[i], fn[ks[i]]>>]
EmitStep ==
    Emit => PrintT("@T " \o ToJson([h |-> <<[op |-> "dec", f |-> 0, v |-> msg'.buf]>>,
                                    ok |-> valid',
                                    enc |-> msg'.buf,
                                    b |-> SetToSeq(want'.bad),
                                    s |-> IF valid' THEN AsList(ReadsOf(msg', want')) ELSE << >>,
                                    r |-> IF valid' THEN AsList(IterAll(msg')) ELSE << >>]))
=============================================================================
