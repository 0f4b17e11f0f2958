-------------------------------- MODULE Pools --------------------------------
(* Sizes that put the fields behind the blob on, before and after offset     *)
(* 65535, which an offset of 16 bits cannot represent.                       *)
EXTENDS Content, TLC
PSchema == 1 :> [k |-> "uint64", r |-> FALSE] @@ 2 :> [k |-> "bytes", r |-> FALSE]
        @@ 3 :> [k |-> "msg", r |-> TRUE] @@ 17 :> [k |-> "fixed32", r |-> FALSE]
U(n) == <<n % 256, n \div 256, 0, 0, 0, 0, 0, 0>>
\* Alone in front: tag and length take 4 bytes, the next tag 1 (2 for field 17).
SetPool(f) ==
    CASE f = 1 -> {U(5), U(300)}
      [] f = 2 -> {BRep(66, n) : n \in {1, 65526, 65527, 65528, 65529, 65530, 65531, 66000}}
      [] OTHER -> {<<1, 2, 3, 4>>}
AppPool(f) == {<< >>, BOf(<<8, 1>>)}
Pad(n) == BCat(EncTag(900, WBytes), EncPayload("bytes", BRep(85, n)))
Rest == BOf(<<26, 2, 8, 3, 8, 7, 141, 1, 1, 2, 3, 4, 26, 0>>)
BufPool == {BCat(Pad(n), Rest) : n \in {65524, 65525, 65526, 65527, 65528}}
=============================================================================
