------------------------------- MODULE SPools --------------------------------
(* Integers, indentation depths and lengths.                                 *)
EXTENDS Bytes, TLC
S(k, seq) == [k |-> k, v |-> BOf(seq)]
Ints == {-2147483647 - 1, -2147483647, -100, -99, -10, -9, -1, 0, 1, 9, 10, 99, 100, 127, 128,
         255, 256, 32767, 32768, 65535, 65536, 536870911, 2147483647}
Args == {[k |-> "int", n |-> n] : n \in Ints}
        \cup {[k |-> "indent", n |-> n] : n \in {0, 1, 2, 3, 7, 40}}
        \cup {[k |-> "str", v |-> BRep(122, n)] : n \in {1, 4096, 70000}}
        \cup {S("str", <<195, 169, 0, 255, 37, 100>>), S("bytes", << >>), S("nilbytes", << >>)}
        \cup {[k |-> "bytes", v |-> BRep(121, 70000)], [k |-> "ptr", v |-> BRep(119, 5000)]}
Indents == {BOf(<<32, 32>>), BOf(<<9>>), BEmpty, BOf(<<45, 62>>)}
Budgets == {5000, 1000000000}
=============================================================================
