-------------------------------- MODULE Pools --------------------------------
(* Every kind of field, values around the limits of the encodings.           *)
EXTENDS Content, TLC
Order == <<"bool", "int32", "int64", "uint32", "uint64", "sint32", "sint64",
           "fixed32", "fixed64", "sfixed32", "sfixed64", "double", "float",
           "string", "bytes", "enum">>
PSchema == [f \in 1..16 |-> [k |-> Order[f], r |-> FALSE]]
        @@ 17 :> [k |-> "msg", r |-> FALSE] @@ 34 :> [k |-> "msg", r |-> TRUE]
        @@ 18 :> [k |-> "bool", r |-> TRUE] @@ 19 :> [k |-> "int32", r |-> TRUE]
        @@ 29 :> [k |-> "double", r |-> TRUE] @@ 31 :> [k |-> "string", r |-> TRUE]
Rep(b, n) == [i \in 1..n |-> b]
V4 == {Rep(0, 4), <<127, 0, 0, 0>>, <<128, 0, 0, 0>>, <<255, 63, 0, 0>>, <<0, 64, 0, 0>>,
       <<255, 255, 255, 127>>, <<0, 0, 0, 128>>, Rep(255, 4), <<0, 0, 128, 191>>}
V8 == {Rep(0, 8), <<127>> \o Rep(0, 7), <<128>> \o Rep(0, 7), Rep(255, 4) \o Rep(0, 4),
       Rep(255, 7) \o <<127>>, Rep(0, 7) \o <<128>>, Rep(255, 8), Rep(0, 6) \o <<240, 63>>}
Enums == {v \in V4 : v[4] < 128}
SetPool(f) ==
    CASE f = 1 -> {<<0>>, <<1>>}
      [] f = 16 -> Enums
      [] f \in {14, 15} -> {<< >>, BOf(<<97>>), BRep(98, 127), BRep(98, 128)}
      [] f = 17 -> {<< >>, BOf(<<8, 1>>)}
      [] OTHER -> IF WidthOf(Order[f]) = 4 THEN V4 ELSE V8
AppPool(f) == {BOf(<<16, 3>>)}
\* Over-long varints and numbers wider than the field, packed repeated scalars.
BufPool == {
    BOf(<<8, 2, 16, 255, 255, 255, 255, 31, 24, 128, 0, 32, 129, 128, 128, 128, 240, 1>>),
    BOf(<<146, 1, 2, 1, 0, 152, 1, 7, 48, 0>>),
    BCat(EncField(12, "double", <<1, 2, 3, 4, 5, 6, 7, 8>>), BOf(<<128, 1, 3, 128, 1, 4>>)),
    BCat(EncField(31, "string", BOf(<<65>>)), EncField(34, "msg", BOf(<<8, 0>>)))}
=============================================================================
