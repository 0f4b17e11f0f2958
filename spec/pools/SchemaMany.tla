----------------------------- MODULE SchemaPools -----------------------------
(* For random schemas. *)
EXTENDS Integers, Sequences
MsgNames == {<<"A">>,
    <<"B">>,
    <<"M", "s", "g">>,
    <<"F", "o", "o", "_", "B", "a", "r">>,
    <<"E", "l", "e", "m", "X">>,
    <<"M", "2">>,
    <<"X", "M", "L", "T", "h", "i", "n", "g">>,
    <<"E", "n", "t", "r", "y">>,
    <<"A", "b">>,
    <<"I", "d">>,
    <<"U", "s", "e", "r", "I", "D">>,
    <<"U", "R", "L">>, <<"U", "r", "l">>, <<"I", "D">>, <<"A", "B">>, <<"M", "S", "G">>, <<"M", "s", "G">>, <<"F", "o", "o", "B", "a", "r">>,
    <<"R", "e", "q", "u", "e", "s", "t">>,
    <<"L", "i", "s", "t">>,
    <<"M", "a", "p">>,
    <<"A", "n", "y">>,
    <<"M", "e", "s", "s", "a", "g", "e">>,
    <<"N", "e", "x", "t">>}
Words == {<<"u", "s", "e", "r">>, <<"i", "s">>, <<"a", "p", "i">>, <<"n", "u", "m">>, <<"x">>, <<"H", "T", "T", "P">>}
Ends == {<<"i", "d">>,
    <<"i", "d", "s">>,
    <<"u", "r", "l">>,
    <<"j", "s", "o", "n">>,
    <<"u", "u", "i", "d">>,
    <<"u", "i", "d">>,
    <<"i", "p">>,
    <<"h", "t", "t", "p">>,
    <<"n", "a", "m", "e">>,
    <<"k", "e", "y">>,
    <<"v", "a", "l", "u", "e">>,
    <<"c", "o", "u", "n", "t">>,
    <<"l", "i", "s", "t">>,
    <<"m", "a", "p">>,
    <<"l", "e", "n">>,
    <<"s", "i", "z", "e">>,
    <<"a", "t">>,
    <<"m", "s">>,
    <<"s">>,
    <<"t", "i", "m", "e">>,
    <<"d", "a", "t", "a">>,
    <<"e", "r", "r", "o", "r">>,
    <<"o", "k">>,
    <<"n", "e", "x", "t">>,
    <<"c", "l", "e", "a", "r">>,
    <<"r", "a", "n", "g", "e">>,
    <<"s", "t", "r", "i", "n", "g">>,
    <<"n", "i", "l">>,
    <<"c", "l", "a", "s", "s">>,
    <<"X", "Y">>,
    <<"f", "o", "o", "b", "a", "r">>,
    <<"u", "s", "e", "r", "i", "d">>,
    <<"x", "Y">>,
    <<"v", "1">>,
    <<"6", "4">>}
FieldNames == {w \o <<"_">> \o e : w \in Words, e \in Ends} \cup Ends \cup {<<"a">>,
    <<"b">>,
    <<"x", "_", "y">>,
    <<"f", "o", "o", "_", "b", "a", "r">>,
    <<"f", "o", "o", "_", "_", "b", "a", "z">>,
    <<"t", "r", "a", "i", "l", "i", "n", "g", "_">>,
    <<"_", "l", "e", "a", "d">>,
    <<"c", "a", "m", "e", "l", "C", "a", "s", "e">>,
    <<"A", "L", "L", "_", "C", "A", "P", "S">>,
    <<"x", "2">>,
    <<"y", "_", "3", "z">>,
    <<"n", "1", "_", "2">>,
    <<"e", "l", "e", "m">>,
    <<"m", "s", "g", "s">>,
    <<"s", "e", "t", "_", "a">>,
    <<"g", "e", "t", "_", "b">>,
    <<"m">>,
    <<"b", "u", "f">>,
    <<"o", "f", "f", "s", "e", "t", "s">>,
    <<"t", "y", "p", "e">>,
    <<"f", "u", "n", "c">>,
    <<"e", "n", "c", "o", "d", "e", "_", "i", "t">>,
    <<"r", "e", "s", "e", "t", "_", "a", "l", "l">>,
    <<"i", "t", "e", "r", "a", "t", "o", "r">>,
    <<"s", "t", "r", "i", "n", "g">>,
    <<"a", "_", "b", "_", "c", "_", "d">>,
    <<"Z", "z">>,
    <<"a", "p", "p", "e", "n", "d", "_", "t", "o", "_", "b">>}
Numbers == {1, 2, 3, 7, 15, 16, 17, 31, 33, 100, 127, 128, 255, 256, 1000, 2047, 2048, 2049, 19, 18999, 65535, 65536, 70001}
KindPool == {"bool", "int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64", "double", "float", "string", "bytes", "enum", "msg"}
Packages == {<<"p">>, <<"a", ".", "b">>, <<"f", "o", "o", "_", "b", ".", "v", "1">>, <<"t", "y", "p", "e">>,
    <<"U", "p", ".", "C", "a", "s", "e">>, <<"z", "e", "r", "o", "p", "b">>, << >>}
FileExtras == {"none", "options", "go", "service", "import", "comments", "extension", "public"}
MsgExtras == {"none", "enum", "reserved", "options", "inner", "extensions"}
FieldExtras == {"none", "oneof", "optional", "default", "lazy", "deprecated", "json", "nested", "packed", "unpacked", "jstype"}
=============================================================================
