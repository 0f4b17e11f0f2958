-------------------------------- MODULE Pools --------------------------------
(* A small schema and inputs with unknown fields of every wire type before,  *)
(* between and after known ones, numbered below, between and above them.     *)
EXTENDS Content, TLC
PSchema == 2 :> [k |-> "uint32", r |-> FALSE] @@ 5 :> [k |-> "string", r |-> FALSE]
        @@ 9 :> [k |-> "msg", r |-> TRUE] @@ 7 :> [k |-> "sint32", r |-> TRUE]
SetPool(f) == IF f = 2 THEN {<<1, 0, 0, 0>>, <<0, 1, 0, 0>>} ELSE {<< >>, BOf(<<97, 98>>)}
AppPool(f) == {BOf(<<8, 1>>)}
Un(n) == {EncField(n, "uint64", <<1, 2, 0, 0, 0, 0, 0, 0>>), EncField(n, "bytes", BOf(<<16, 9, 9>>)),
          EncField(n, "fixed32", <<16, 1, 42, 1>>), EncField(n, "double", <<1, 2, 3, 4, 5, 6, 7, 8>>)}
Uns == UNION {Un(n) : n \in {1, 3, 6, 8, 10, 16, 2048, 33554432}} \cup Un(7)
A == BOf(<<16, 5>>)
B == BOf(<<42, 1, 120>>)
C == BOf(<<74, 2, 8, 2>>)
BufPool == {BCat(u, BCat(A, B)) : u \in Uns} \cup {BCat(A, BCat(u, C)) : u \in Uns}
       \cup {BCat(BCat(C, u), BCat(C, u)) : u \in Uns}
=============================================================================
