------------------------------- MODULE DPools --------------------------------
\* Every byte.
EXTENDS Content, TLC
PSchema == 1 :> [k |-> "uint64", r |-> FALSE] @@ 2 :> [k |-> "bytes", r |-> FALSE]
        @@ 3 :> [k |-> "msg", r |-> TRUE] @@ 17 :> [k |-> "fixed32", r |-> FALSE]
Alphabet == 0..255
=============================================================================
