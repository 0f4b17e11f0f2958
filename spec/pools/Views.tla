-------------------------------- MODULE Pools --------------------------------
(* For Memory.tla: messages in messages, and lengths that are longer than     *)
(* necessary.                                                                 *)
EXTENDS Content, TLC
M(n, rp) == n :> [k |-> "msg", r |-> rp]
PSchema == M(1, FALSE) @@ M(2, FALSE) @@ M(4, TRUE)
        @@ 3 :> [k |-> "uint64", r |-> FALSE] @@ 7 :> [k |-> "string", r |-> FALSE]
SetPool(f) ==
    CASE f = 1 -> {BOf(<<24, 5>>)}
      [] f = 2 -> {<< >>}
      [] f = 3 -> {<<1, 0, 0, 0, 0, 0, 0, 0>>, <<0, 2, 0, 0, 0, 0, 0, 0>>}
      [] OTHER -> {BOf(<<65, 66>>), BOf(<<67>>)}
AppPool(f) == {BOf(<<24, 3>>)}
BufPool == {
    \* left {name "ab", right {val 5}}, kids {val 1}, name "xyz", kids {}
    BOf(<<10, 8, 58, 2, 97, 98, 18, 2, 24, 5, 34, 2, 24, 1, 58, 3, 120, 121, 122, 34, 0>>),
    \* name "xyz" with a length of two bytes, kids {left {}} too, left {name "q"} with a long tag
    BOf(<<58, 131, 0, 120, 121, 122, 34, 130, 0, 10, 0, 138, 0, 3, 58, 1, 113, 24, 7>>)}
=============================================================================
