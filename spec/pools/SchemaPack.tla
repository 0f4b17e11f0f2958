----------------------------- MODULE SchemaPools -----------------------------
(* Very many messages. *)
EXTENDS Integers
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
MsgNames == {<<"M", x, y>> : x \in {"0", "1", "2", "3", "4"}, y \in Digits}
FieldNames == {<<"x">>, <<"y">>, <<"z">>}
Numbers == {1, 2, 3, 40}
KindPool == {"string", "msg"}
Packages == {<<"p">>}
FileExtras == {"none"}
MsgExtras == {"none"}
FieldExtras == {"none"}
=============================================================================
