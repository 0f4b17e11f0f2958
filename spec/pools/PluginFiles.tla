------------------------------- MODULE GPools --------------------------------
EXTENDS Integers, Sequences
PPr == <<".", "p", "r", "o", "t", "o">>
F(p, b) == [path |-> p \o PPr, body |-> b]
Files == {
    F(<<"a">>, 0), F(<<"a">>, 1), F(<<"d", "/", "a">>, 1), F(<<"A">>, 2),
    F(<<"d", ".", "p", "r", "o", "t", "o", "/", "b">>, 4),
    F(<<"a", ".", "p", "r", "o", "t", "o">>, 3),
    F(<<"x", "/", "y", "/", "r", "o", "o", "t">>, 5),
    F(<<"a", ".", "b", "-", "1">>, 6)}
Options == {[param |-> "", version |-> 0]}
=============================================================================
