----------------------------- MODULE SchemaPools -----------------------------
(* Field numbers that need tags of four and five bytes. *)
EXTENDS Integers
MsgNames == {<<"A">>}
FieldNames == {<<"x">>, <<"y">>}
Numbers == {1, 2097152, 33554431, 33554432}
KindPool == {"uint64", "fixed32", "bytes"}
Packages == {<<"p">>}
FileExtras == {"none"}
MsgExtras == {"none"}
FieldExtras == {"none"}
=============================================================================
