------------------------------- MODULE SPools --------------------------------
(* Many depths of indentation, and lengths around powers of two.             *)
EXTENDS Bytes, TLC
Lengths == {0, 1, 2, 3, 4, 5, 6, 8, 9, 10, 12, 15, 16, 17, 20, 24, 31, 32, 33, 50, 63, 64, 65, 99, 100, 101,
            127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 8192, 65535, 65536}
Args == {[k |-> "indent", n |-> n] : n \in Lengths}
        \cup {[k |-> "str", v |-> BRep(122, n)] : n \in {1, 63, 64, 65, 1025}}
        \cup {[k |-> "bytes", v |-> BRep(121, n)] : n \in {1, 512}}
        \cup {[k |-> "stringer", v |-> BRep(119, n)] : n \in {1, 512}}
Indents == {BOf(<<32, 32>>), BOf(<<9>>)}
Budgets == {1000, 1000000000}
=============================================================================
