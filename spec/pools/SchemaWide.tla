----------------------------- MODULE SchemaPools -----------------------------
(* Messages of very many fields. *)
EXTENDS Integers
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
MsgNames == {<<"A">>, <<"B">>}
FieldNames == {<<c, x, "_", y>> : c \in {"f", "g"}, x \in Digits, y \in Digits}
Numbers == 1..280
KindPool == {"bool", "int32", "uint64", "sint64", "fixed32", "double", "string", "bytes", "enum", "msg"}
Packages == {<<"p">>}
FileExtras == {"none"}
MsgExtras == {"none"}
FieldExtras == {"none"}
=============================================================================
