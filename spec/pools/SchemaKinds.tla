----------------------------- MODULE SchemaPools -----------------------------
(* Every kind and label. *)
EXTENDS Integers
MsgNames == {<<"A">>}
FieldNames == {<<"a", "_", "b">>}
Numbers == {1, 15, 16, 2047, 2048}
KindPool == {"bool", "int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64", "double", "float", "string", "bytes", "enum", "msg"}
Packages == {<<"p">>}
FileExtras == {"none"}
MsgExtras == {"none"}
FieldExtras == {"none"}
=============================================================================
