------------------------------- MODULE DPools --------------------------------
EXTENDS Content, TLC
PSchema == 2 :> [k |-> "uint32", r |-> FALSE] @@ 5 :> [k |-> "string", r |-> FALSE]
        @@ 9 :> [k |-> "msg", r |-> TRUE] @@ 7 :> [k |-> "sint32", r |-> TRUE]
Alphabet == {0, 1, 3, 4, 5, 7, 16, 42, 56, 58, 74, 9, 6, 128, 144, 240}
=============================================================================
