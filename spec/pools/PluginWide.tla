------------------------------- MODULE GPools --------------------------------
(* Many files in one request.                                                *)
EXTENDS Integers, Sequences
PPr == <<".", "p", "r", "o", "t", "o">>
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Files == {[path |-> <<"f">> \o s \o PPr, body |-> b] :
            s \in {<<x, y>> : x \in Digits, y \in Digits} \cup {<<x>> : x \in Digits}, b \in {0, 2, 3, 4, 7, 8}}
Options == {[param |-> p, version |-> v] :
              p \in {"", "paths=source_relative", "import_prefix=x,Ma.proto=y/z,plugins=grpc", "module=p,debug"},
              v \in {0, 3, 21, 107, 229}}
=============================================================================
