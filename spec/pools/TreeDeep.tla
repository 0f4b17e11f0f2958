------------------------------- MODULE SPools --------------------------------
(* Few arguments, many calls, and every budget.                              *)
EXTENDS Bytes, TLC
S(k, seq) == [k |-> k, v |-> BOf(seq)]
Args == {[k |-> "indent", n |-> 1], [k |-> "int", n |-> 0], S("str", <<97, 98>>),
         S("bytes", <<10>>), S("stringer", <<120>>)}
Indents == {BOf(<<32, 32>>)}
Budgets == 0..9
=============================================================================
