-------------------------------- MODULE Pools --------------------------------
(* Large and sparse field numbers: tags of one to three bytes.               *)
EXTENDS Content, TLC
One(n, kd) == n :> [k |-> kd, r |-> FALSE]
PSchema == One(1, "uint32") @@ One(15, "string") @@ One(16, "fixed64") @@ One(17, "float")
        @@ One(2047, "bytes") @@ One(2048, "sint32") @@ One(2999, "msg") @@ One(3000, "bool")
        @@ 2046 :> [k |-> "msg", r |-> TRUE] @@ 2998 :> [k |-> "msg", r |-> TRUE]
SetPool(f) ==
    CASE f = 1 -> {<<7, 0, 0, 0>>, <<255, 255, 255, 255>>}
      [] f = 15 -> {BOf(<<65>>), BOf(<<65, 66>>)}
      [] f = 2047 -> {<< >>, BRep(67, 128)}
      [] f = 2048 -> {<<255, 255, 255, 255>>, <<0, 1, 0, 0>>}
      [] f = 2999 -> {BOf(<<8, 1>>), << >>}
      [] f = 3000 -> {<<1>>}
      [] f = 17 -> {<<0, 0, 128, 63>>}
      [] OTHER -> {<<1, 0, 0, 0, 0, 0, 0, 255>>}
AppPool(f) == IF f = 2046 THEN {BOf(<<8, 2>>)} ELSE {<< >>, BOf(<<18, 1, 9>>)}
Long(f, w) == \* a tag that is a byte longer than necessary
    LET g == TagGroups(f, w) IN BOf([i \in 1..(Len(g) + 1) |-> IF i <= Len(g) THEN g[i] + 128 ELSE 0])
BufPool == {
    BCat(BCat(EncField(2048, "sint32", <<5, 0, 0, 0>>), EncField(15, "string", BOf(<<70>>))),
         BCat(Long(3000, 0), BOf(<<1>>))),
    BCat(BCat(Long(2998, 2), BOf(<<2, 8, 9>>)),
         BCat(EncField(2047, "bytes", BOf(<<1, 2>>)), EncField(2998, "msg", BOf(<<8, 4>>)))),
    BCat(EncField(16777215, "bytes", BOf(<<5>>)), EncField(2999, "msg", BOf(<<8, 3>>)))}
=============================================================================
