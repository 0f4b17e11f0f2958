------------------------------- MODULE DPools --------------------------------
EXTENDS Content, TLC
PSchema == 1 :> [k |-> "uint64", r |-> FALSE] @@ 2 :> [k |-> "bytes", r |-> FALSE]
        @@ 3 :> [k |-> "msg", r |-> TRUE] @@ 17 :> [k |-> "fixed32", r |-> FALSE]
\* 8 18 26: declared fields; 13: field 1 as fixed32; 11 12: groups; 128 129 255:
\* continuation bytes; 40 45: unknown field 5; small lengths.
Alphabet == {0, 1, 2, 3, 8, 11, 13, 18, 26, 40, 45, 128, 129, 255}
=============================================================================
