-------------------------------- MODULE Pools --------------------------------
(* The raft message of the README.                                           *)
EXTENDS Content, TLC
S(n, kd) == n :> [k |-> kd, r |-> FALSE]
PSchema == S(1, "enum") @@ S(2, "uint64") @@ S(3, "uint64") @@ S(4, "uint64") @@ S(5, "uint64")
        @@ S(6, "uint64") @@ 7 :> [k |-> "msg", r |-> TRUE] @@ S(8, "uint64") @@ S(9, "msg")
        @@ S(10, "bool") @@ S(11, "uint64") @@ S(12, "bytes")
U(n) == <<n % 256, n \div 256, 0, 0, 0, 0, 0, 0>>
Entry == BOf(<<8, 0, 16, 3, 24, 4, 34, 2, 65, 66>>)
SetPool(f) ==
    CASE f = 1 -> {<<3, 0, 0, 0>>, <<200, 0, 0, 0>>}
      [] f \in {4, 6} -> {U(1), U(1000)}
      [] f = 9 -> {<< >>, BOf(<<10, 1, 5, 18, 2, 16, 9>>)}
      [] f = 10 -> {<<0>>, <<1>>}
      [] f = 12 -> {<< >>, BOf(<<1, 2, 3>>)}
      [] OTHER -> {U(130)}
AppPool(f) == {Entry, << >>}
BufPool == {
    BCat(BOf(<<8, 4, 16, 1, 24, 2, 32, 7, 40, 6, 48, 9>>),
         BCat(EncField(7, "msg", Entry), BCat(EncField(7, "msg", << >>), BOf(<<64, 3, 80, 1>>)))),
    BCat(EncField(12, "bytes", BOf(<<9>>)), BCat(EncField(7, "msg", Entry), EncField(4, "uint64", U(300))))}
=============================================================================
