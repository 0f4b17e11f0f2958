------------------------------- MODULE GPools --------------------------------
(* More paths and bodies, for long random behaviours.                        *)
EXTENDS Integers, Sequences
PPr == <<".", "p", "r", "o", "t", "o">>
Stems == {<<"a">>, <<"d", "/", "a">>, <<"d", "/", "d", "/", "a">>, <<"o">>, <<"p", "r", "o", "t", "o">>,
          <<"p", "r", "o", "t", "o", "/", "p", "o", "r", "t">>, <<"a", ".", "p", "r", "o", "t", "o">>,
          <<"z", "e", "r", "o", "p", "b", ".", "g", "o">>, <<"A", "_", "b", " ", "c">>,
          <<"d", ".", "p", "r", "o", "t", "o", "/", "x">>, <<"A">>, <<"D", "/", "a">>}
Files == {[path |-> s \o PPr, body |-> b] : s \in Stems, b \in 0..8}
Options == {[param |-> p, version |-> v] :
              p \in {"", "paths=source_relative", "import_prefix=x,Ma.proto=y/z,plugins=grpc", "module=p,debug"},
              v \in {0, 3, 21, 107, 229}}
=============================================================================
