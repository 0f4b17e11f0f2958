------------------------------- MODULE SPools --------------------------------
EXTENDS Bytes, TLC
S(k, seq) == [k |-> k, v |-> BOf(seq)]
Args == {[k |-> "indent", n |-> 0], [k |-> "indent", n |-> 2], [k |-> "int", n |-> -17],
         S("str", <<97, 98>>), S("str", << >>), S("bytes", <<0, 255>>),
         S("stringer", <<88, 89>>), S("enum", <<84, 89, 80, 69, 95, 66, 79, 79, 76>>)}
Indents == {BOf(<<32, 32>>), BOf(<<9>>)}
Budgets == {0, 1, 3, 6, 1000}
=============================================================================
