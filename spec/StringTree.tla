------------------------------ MODULE StringTree ------------------------------
(* generate/stringtree.go: a writer of code. Write renders its arguments one  *)
(* after the other into the underlying writer, which here accepts `budget`    *)
(* bytes. It fails with the first write that exceeds the budget or, if it is  *)
(* `strict`, with the first write that uses it up, although it takes all of   *)
(* it. From the first failure on nothing more is written and the error stays, *)
(* whatever error it is and whatever the writer would do then: the replay     *)
(* goes through kinds of errors and writers that recover.                     *)
EXTENDS Bytes, TLC, Json, SPools

CONSTANTS MaxCalls, MaxArgs, Strict, Emit

VARIABLES indent,   \* the indentation string
          budget,   \* bytes that the underlying writer accepts
          strict,   \* whether it fails as soon as they are used up
          calls,    \* what was asked for: sequence of sequences of arguments
          out,      \* what the underlying writer accepted
          failed    \* Error() # nil

vars == <<indent, budget, strict, calls, out, failed>>

RECURSIVE Times(_, _)
Times(s, n) ==
    IF n = 0 \/ s = BEmpty THEN BEmpty
    ELSE IF Len(s) = 1 THEN BRep(s[1][1], n * s[1][2])
    ELSE BCat(s, Times(s, n - 1))

\* Decimal digits. (TLC has 32 bit integers, so -2^31 has no negation.)
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Digits(n \div 10), 48 + (n % 10))
Decimal(n) ==
    IF n >= 0 THEN Digits(n)
    ELSE LET q == n \div 10
             r == n % 10
         IN  <<45>> \o (IF r = 0 THEN Append(Digits(-q), 48)
                        ELSE IF q = -1 THEN <<48 + 10 - r>>
                        ELSE Append(Digits(-(q + 1)), 48 + (10 - r)))

Render(ind, a) ==
    CASE a.k = "indent" -> Times(ind, a.n)
      [] a.k = "int" -> BOf(Decimal(a.n))
      [] OTHER -> a.v          \* string, bytes, and several kinds of stringers

RenderAll(ind, args) == FoldLeft(LAMBDA s, a : BCat(s, Render(ind, a)), BEmpty, args)

Init ==
    /\ indent \in Indents /\ budget \in Budgets /\ strict \in Strict
    /\ calls = << >> /\ out = BEmpty /\ failed = FALSE

Write(args) ==
    LET text == BCat(out, RenderAll(indent, args))
        short == BLen(text) > budget \/ (strict /\ BLen(text) = budget /\ budget > 0)
    IN  /\ Len(calls) < MaxCalls
        /\ calls' = Append(calls, args)
        /\ out' = IF failed THEN out ELSE IF short THEN BTake(text, budget) ELSE text
        /\ failed' = (failed \/ short)
        /\ UNCHANGED <<indent, budget, strict>>

Next == \E n \in 0..MaxArgs : \E args \in [1..n -> Args] : Write(args)

Spec == Init /\ [][Next]_vars

\* The properties.
Whole == FoldLeft(LAMBDA s, c : BCat(s, RenderAll(indent, c)), BEmpty, calls)
InOrder ==
    /\ IF failed THEN out = BTake(Whole, budget) ELSE out = Whole
    /\ failed <=> (BLen(Whole) > budget \/ (strict /\ BLen(Whole) = budget /\ budget > 0))
Sticky == [][failed => failed' /\ out' = out]_vars

EmitStep ==
    Emit => PrintT("@T " \o ToJson([indent |-> indent, budget |-> budget, strict |-> strict, calls |-> calls',
                                   out |-> out', failed |-> failed']))
=============================================================================
