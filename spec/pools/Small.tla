-------------------------------- MODULE Pools --------------------------------
EXTENDS Content, TLC
PSchema == 1 :> [k |-> "uint64", r |-> FALSE] @@ 2 :> [k |-> "bytes", r |-> FALSE]
        @@ 3 :> [k |-> "msg", r |-> TRUE] @@ 17 :> [k |-> "fixed32", r |-> FALSE]
U(n) == <<n % 256, n \div 256, 0, 0, 0, 0, 0, 0>>
SetPool(f) ==
    CASE f = 1 -> {U(5), U(300)}
      [] f = 2 -> {<< >>, BOf(<<9>>), BOf(<<7, 7, 8>>)}
      [] OTHER -> {<<1, 2, 3, 4>>}
AppPool(f) == {<< >>, BOf(<<8, 1>>)}
BufPool == {
    << >>,
    BOf(<<8, 1, 18, 1, 65, 8, 172, 2>>),                      \* 1 twice
    BOf(<<136, 0, 1, 146, 128, 0, 2, 66, 67, 141, 1, 1, 2, 3, 4>>),  \* long tags
    BOf(<<160, 31, 1, 26, 2, 8, 3, 40, 7, 26, 0, 18, 128, 0>>),   \* unknown 500, 5
    \* other wire types: 1 (after a good one), 2, 17 at the end
    BOf(<<8, 1, 13, 7, 8, 9, 9, 16, 200, 1, 136, 1, 3>>),
    BOf(<<8, 1, 18, 5, 65>>)}                                  \* truncated
=============================================================================
