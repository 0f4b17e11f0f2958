-------------------------------- MODULE Bytes --------------------------------
(* Byte strings, run-length encoded.                                         *)
(*                                                                           *)
(* A byte string is a sequence of runs <<b, n>>, n >= 1, no two neighbours   *)
(* with the same b, so equality of byte strings is equality of values and a  *)
(* 64 KiB payload costs one run.                                             *)
EXTENDS Integers, Sequences, SequencesExt

BEmpty == << >>

IsBytes(s) ==
    /\ \A i \in DOMAIN s : s[i][1] \in 0..255 /\ s[i][2] >= 1
    /\ \A i \in 1..(Len(s) - 1) : s[i][1] # s[i + 1][1]

BLen(s) == FoldLeft(LAMBDA a, r : a + r[2], 0, s)

BRep(b, n) == IF n = 0 THEN << >> ELSE << <<b, n>> >>

BCat(s, t) ==
    IF s = << >> THEN t
    ELSE IF t = << >> THEN s
    ELSE IF s[Len(s)][1] = t[1][1]
         THEN SubSeq(s, 1, Len(s) - 1)
                \o << <<t[1][1], s[Len(s)][2] + t[1][2]>> >>
                \o SubSeq(t, 2, Len(t))
         ELSE s \o t

\* A plain sequence of byte values as a byte string, and back.
BOf(seq) == FoldLeft(LAMBDA a, b : BCat(a, << <<b, 1>> >>), << >>, seq)

\* Cursors. <<i, o>> is the position before byte o (from 0) of run i; the end of
\* s is <<Len(s) + 1, 0>>. Moving past the end yields FALSE in the third place.
Start == <<1, 0>>
AtEnd(s, c) == c[1] > Len(s)
ByteAt(s, c) == s[c[1]][1]
Next1(s, c) == IF c[2] + 1 = s[c[1]][2] THEN <<c[1] + 1, 0>> ELSE <<c[1], c[2] + 1>>

\* a = <<i, o, n>>: n more bytes to go from <<i, o>>. Takes k runs at a time, then
\* twice as many, and so on. (TLC's time is quadratic in the depth of a recursion.)
ForwardSome(s, a, k) ==
    FoldLeft(LAMBDA x, j :
               IF x[3] = 0 \/ x[1] > Len(s) THEN x
               ELSE LET left == s[x[1]][2] - x[2]
                    IN  IF x[3] < left THEN <<x[1], x[2] + x[3], 0>>
                        ELSE <<x[1] + 1, 0, x[3] - left>>,
             a, [j \in 1..k |-> j])

RECURSIVE ForwardFrom(_, _, _)
ForwardFrom(s, a, k) ==
    IF a[3] = 0 \/ a[1] > Len(s) THEN <<a[1], a[2], a[3] = 0>>
    ELSE ForwardFrom(s, ForwardSome(s, a, k), 2 * k)

Forward(s, i, o, n) ==
    IF i <= Len(s) /\ n < s[i][2] - o THEN <<i, o + n, TRUE>>
    ELSE ForwardFrom(s, <<i, o, n>>, 2)

\* The bytes between two cursors.
BBetween(s, c, d) ==
    IF c[1] = d[1] THEN BRep(IF c[1] > Len(s) THEN 0 ELSE s[c[1]][1], d[2] - c[2])
    ELSE << <<s[c[1]][1], s[c[1]][2] - c[2]>> >>
           \o SubSeq(s, c[1] + 1, d[1] - 1)
           \o (IF d[2] = 0 THEN << >> ELSE << <<s[d[1]][1], d[2]>> >>)

BTake(s, n) == LET d == Forward(s, 1, 0, n) IN BBetween(s, Start, <<d[1], d[2]>>)
BDrop(s, n) ==
    LET d == Forward(s, 1, 0, n)
    IN  IF d[1] > Len(s) THEN << >>
        ELSE << <<s[d[1]][1], s[d[1]][2] - d[2]>> >> \o SubSeq(s, d[1] + 1, Len(s))
BSub(s, from, to) == BTake(BDrop(s, from), to - from)   \* bytes [from, to)

\* s with the bytes [at, at + BLen(t)) replaced by t.
BOverwrite(s, at, t) == BCat(BCat(BTake(s, at), t), BDrop(s, at + BLen(t)))
=============================================================================
