----------------------------- MODULE SchemaPools -----------------------------
(* Few kinds: what depends on the order of messages and fields. *)
EXTENDS Integers
MsgNames == {<<"A">>,
    <<"B", "c">>,
    <<"B", "C">>}
FieldNames == {<<"x">>,
    <<"y", "_", "z">>}
Numbers == {2, 1}
KindPool == {"uint64", "msg"}
Packages == {<<"p">>}
FileExtras == {"none"}
MsgExtras == {"none"}
FieldExtras == {"none"}
=============================================================================
