------------------------------- MODULE SPools --------------------------------
(* Texts that something could take for special.                              *)
EXTENDS Bytes, TLC
Texts == {<<97, 0>>, <<0>>, <<32, 97, 32>>, <<10>>, <<97, 10, 10>>, <<13, 10>>, <<9>>, <<37, 100, 37>>,
          <<92, 110>>, <<255, 254>>, <<195, 169>>, <<195>>, <<226, 128, 168>>, <<34, 96, 39>>, << >>,
          <<239, 187, 191, 65>>, <<123, 125>>}
Args == {[k |-> k, v |-> BOf(t)] : k \in {"str", "bytes", "stringer", "ptr"}, t \in Texts}
Indents == {BOf(<<32, 32>>), BOf(<<37, 115>>)}
Budgets == {3, 1000}
=============================================================================
