-------------------------------- MODULE Pools --------------------------------
(* Embedded and repeated messages of several fields next to each other.      *)
EXTENDS Content, TLC
M(n, rp) == n :> [k |-> "msg", r |-> rp]
PSchema == M(1, FALSE) @@ M(2, FALSE) @@ M(4, TRUE) @@ M(5, TRUE) @@ M(6, TRUE) @@ M(20, FALSE)
        @@ 3 :> [k |-> "uint64", r |-> FALSE] @@ 7 :> [k |-> "string", r |-> FALSE]
        @@ 8 :> [k |-> "int64", r |-> TRUE]
SetPool(f) ==
    CASE f = 1 -> {<< >>, BOf(<<24, 5>>), BOf(<<10, 2, 24, 9>>)}
      [] f = 2 -> {BOf(<<24, 1, 34, 2, 24, 2>>)}
      [] f = 3 -> {<<1, 0, 0, 0, 0, 0, 0, 0>>, <<0, 2, 0, 0, 0, 0, 0, 0>>}
      [] f = 7 -> {BOf(<<65, 66>>)}
      [] OTHER -> {BOf(<<8, 1>>)}
AppPool(f) == IF f = 4 THEN {<< >>, BOf(<<24, 3>>)} ELSE {BOf(<<8, 6>>)}
BufPool == {
    \* elements of 4 and 5 interleaved with others, unknown 9 and opaque 8
    BOf(<<34, 2, 24, 1, 42, 0, 64, 5, 34, 0, 74, 1, 7, 42, 2, 24, 4, 58, 1, 90, 34, 2, 24, 2>>),
    BOf(<<162, 1, 2, 8, 2, 10, 4, 18, 2, 24, 8, 24, 1>>),
    \* a would-be element that is not length-delimited
    BOf(<<34, 0, 32, 5, 34, 2, 24, 1>>)}
=============================================================================
