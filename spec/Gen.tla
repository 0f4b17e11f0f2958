--------------------------------- MODULE Gen ---------------------------------
(* The generator: which schemas it accepts and what their generated API is.   *)
(*                                                                           *)
(* A behaviour declares a package of one or two files step by step, as the    *)
(* person writing the schema does; at its end the whole API is known. Names   *)
(* are sequences of one-character strings. What a schema may have besides     *)
(* messages and fields (extras) has no influence on the API.                  *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, SchemaPools

CONSTANTS MaxMsgs, MaxFields, Weight, Emit

VARIABLES syntax,   \* of the package's files
          pkg,      \* their package
          extra,    \* what else is in the files
          msgs,     \* the messages: <<[name, file, extra, fields]>>
          at,       \* the message that is being declared, 0: only names so far
          part,     \* the field that is being declared, as far as it is known
          done

vars == <<syntax, pkg, extra, msgs, at, part, done>>

Kinds == {"bool", "int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64",
          "sfixed32", "sfixed64", "double", "float", "string", "bytes", "enum", "msg"}

GoType(k) ==
    CASE k \in {"int32", "sint32", "sfixed32"} -> "int32"
      [] k \in {"int64", "sint64", "sfixed64"} -> "int64"
      [] k \in {"uint32", "fixed32", "enum"} -> "uint32"
      [] k \in {"uint64", "fixed64"} -> "uint64"
      [] k = "double" -> "float64"
      [] k = "float" -> "float32"
      [] k = "bytes" -> "[]byte"
      [] OTHER -> k                    \* bool, string

Lower == <<"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z">>
Upper == <<"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z">>
ToUpper(c) == IF c \in ToSet(Lower) THEN Upper[CHOOSE i \in DOMAIN Lower : Lower[i] = c] ELSE c

\* CamelCase: without underscores, what follows one is capitalized.
GoName(n) ==
    FoldLeft(LAMBDA a, c : IF c = "_" THEN [up |-> TRUE, s |-> a.s]
                           ELSE [up |-> FALSE, s |-> Append(a.s, IF a.up THEN ToUpper(c) ELSE c)],
             [up |-> TRUE, s |-> << >>], n).s

Str(s) == CASE s = "Set" -> <<"S", "e", "t">>
            [] s = "AppendTo" -> <<"A", "p", "p", "e", "n", "d", "T", "o">>
            [] s = "Encode" -> <<"E", "n", "c", "o", "d", "e">>
            [] s = "Decode" -> <<"D", "e", "c", "o", "d", "e">>
            [] s = "Reset" -> <<"R", "e", "s", "e", "t">>
            [] s = "Iterator" -> <<"I", "t", "e", "r", "a", "t", "o", "r">>

\* The methods of a field: [name, form, type]. form says what the signature is.
Meth(n, form, t) == [name |-> n, form |-> form, type |-> t]
Methods(f) ==
    LET g == GoName(f.name)
    IN  CASE f.label = "repeated" /\ f.kind # "msg" -> {}
          [] f.label = "repeated" -> {Meth(g, "iterator", f.elem), Meth(Str("AppendTo") \o g, "append", f.elem)}
          [] f.kind = "msg" -> {Meth(g, "getmsg", f.elem), Meth(Str("Set") \o g, "setmsg", f.elem)}
          [] OTHER -> {Meth(g, "get", <<GoType(f.kind)>>), Meth(Str("Set") \o g, "set", <<GoType(f.kind)>>)}

Always == {Meth(Str("Encode"), "encode", << >>), Meth(Str("Decode"), "decode", << >>), Meth(Str("Reset"), "reset", << >>)}
Api(m) == Always \cup UNION {Methods(m.fields[i]) : i \in DOMAIN m.fields}

\* The names that an iterator type may get: the documentation fixes none.
IterNames(m, f) ==
    {m.name \o f.elem \o Str("Iterator"), m.name \o GoName(f.name) \o f.elem \o Str("Iterator"),
     m.name \o GoName(f.name) \o Str("Iterator")}

Reps(m) == {i \in DOMAIN m.fields : m.fields[i].label = "repeated" /\ m.fields[i].kind = "msg"}
MethodNames(f) == {x.name : x \in Methods(f)}

\* May this field be added to message m? Its names must be free: in the message,
\* and for iterators in the package.
Free(m, f) ==
    /\ f.name # << >> /\ GoName(f.name) # << >> /\ GoName(f.name)[1] \in ToSet(Upper)
    /\ \A i \in DOMAIN m.fields : m.fields[i].name # f.name /\ m.fields[i].num # f.num
    /\ \A i \in DOMAIN m.fields : GoName(m.fields[i].name) # GoName(f.name)
    /\ MethodNames(f) \cap {x.name : x \in Api(m)} = {}
    /\ (f.label = "repeated" /\ f.kind = "msg") =>
          \A k \in DOMAIN msgs :
              /\ msgs[k].name \notin IterNames(m, f)
              /\ \A i \in Reps(msgs[k]) :
                    LET g == msgs[k].fields[i]
                    IN  IF msgs[k].name = m.name /\ g.elem = f.elem
                        \* the shared first choice is what the generator resolves
                        THEN IterNames(m, f) \cap IterNames(m, g) \subseteq {m.name \o f.elem \o Str("Iterator")}
                        ELSE IterNames(m, f) \cap IterNames(msgs[k], g) = {}

NoPart == [name |-> << >>, num |-> 0, label |-> "", kind |-> "", elem |-> << >>, extra |-> {}]

Init ==
    /\ syntax \in {"proto2", "proto3"} /\ pkg \in Packages /\ extra \in FileExtras /\ msgs = << >> /\ at = 0 /\ part = NoPart /\ done = FALSE

\* A message's name, in the first or the second file.
Declare(n, file, x) ==
    /\ at = 0 /\ Len(msgs) < MaxMsgs /\ ~done
    /\ \A i \in DOMAIN msgs : msgs[i].name # n
    /\ (IF msgs = << >> THEN file = 1 ELSE file \in {msgs[Len(msgs)].file, 2})
    \* without a package, a Go package is one file
    /\ (pkg = << >> => file = 1)
    /\ msgs' = Append(msgs, [name |-> n, file |-> file, extra |-> x, fields |-> << >>])
    /\ UNCHANGED <<syntax, pkg, extra, at, part, done>>

\* On to the next message.
Body ==
    /\ at < Len(msgs) /\ part = NoPart /\ ~done
    /\ at' = at + 1
    /\ UNCHANGED <<syntax, pkg, extra, msgs, part, done>>

Open(more) == at > 0 /\ ~done /\ Len(msgs[at].fields) < MaxFields /\ more

Name(n) ==
    /\ Open(part = NoPart) /\ \A i \in DOMAIN msgs[at].fields : GoName(msgs[at].fields[i].name) # GoName(n)
    /\ part' = [part EXCEPT !.name = n] /\ UNCHANGED <<syntax, pkg, extra, msgs, at, done>>
Number(n) ==
    /\ Open(part.name # << >> /\ part.num = 0) /\ \A i \in DOMAIN msgs[at].fields : msgs[at].fields[i].num # n
    /\ part' = [part EXCEPT !.num = n] /\ UNCHANGED <<syntax, pkg, extra, msgs, at, done>>
Label(x) ==
    /\ Open(part.num # 0 /\ part.label = "") /\ (x = "required" => syntax = "proto2")
    /\ part' = [part EXCEPT !.label = x] /\ UNCHANGED <<syntax, pkg, extra, msgs, at, done>>
Kind(k) ==
    /\ Open(part.label # "" /\ part.kind = "")
    /\ part' = [part EXCEPT !.kind = k, !.elem = IF k = "msg" THEN @ ELSE <<"-">>]
    /\ UNCHANGED <<syntax, pkg, extra, msgs, at, done>>
Elem(i) ==
    /\ Open(part.kind = "msg" /\ part.elem = << >>)
    /\ msgs[i].file <= msgs[at].file        \* the second file imports the first
    /\ part' = [part EXCEPT !.elem = msgs[i].name] /\ UNCHANGED <<syntax, pkg, extra, msgs, at, done>>

\* At most two extras.
Extra(x) ==
    /\ Open(part.elem # << >> /\ Cardinality(part.extra) < 2 /\ x \notin part.extra /\ "none" \notin part.extra)
    /\ CASE x = "oneof" -> part.label = "optional" /\ "optional" \notin part.extra
         [] x = "optional" -> part.label = "optional" /\ syntax = "proto3" /\ "oneof" \notin part.extra
         [] x = "default" -> part.label = "optional" /\ part.kind # "msg" /\ syntax = "proto2"
         [] x = "lazy" -> part.kind = "msg"
         [] x = "nested" -> part.kind = "enum"
         [] x = "packed" -> part.label = "repeated" /\ part.kind \notin {"string", "bytes", "msg"} /\ "unpacked" \notin part.extra
         [] x = "unpacked" -> part.label = "repeated" /\ part.kind \notin {"string", "bytes", "msg"} /\ "packed" \notin part.extra
         [] OTHER -> TRUE
    /\ part' = [part EXCEPT !.extra = @ \cup {x}] /\ UNCHANGED <<syntax, pkg, extra, msgs, at, done>>

\* The field is complete: it is added, unless its names are taken.
Field ==
    /\ Open(part.extra # {})
    /\ part' = NoPart
    /\ msgs' = IF Free(msgs[at], part)
               THEN [msgs EXCEPT ![at].fields = Append(@, part)] ELSE msgs
    /\ UNCHANGED <<syntax, pkg, extra, at, done>>

\* The package is complete.
Finish ==
    /\ at = Len(msgs) /\ part = NoPart /\ ~done
    /\ done' = TRUE /\ UNCHANGED <<syntax, pkg, extra, msgs, at, part>>

Next ==
    \/ (\E n \in MsgNames : \E file \in {1, 2} : \E x \in MsgExtras : Declare(n, file, x))
    \/ Body
    \/ (\E n \in FieldNames : Name(n))
    \/ (\E n \in Numbers : Number(n))
    \/ (\E x \in {"optional", "required", "repeated"} : Label(x))
    \/ (\E k \in KindPool : Kind(k))
    \/ (\E w \in 1..Weight : Kind("msg"))       \* more often when simulating
    \/ (\E i \in DOMAIN msgs : Elem(i))
    \/ (\E x \in FieldExtras : Extra(x))
    \/ Field
    \/ Finish

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* The properties.                                                           *)

\* Every field has its methods, and no two declarations share one.
Unambiguous ==
    done => \A k \in DOMAIN msgs :
        LET m == msgs[k]
        IN  /\ Cardinality({x.name : x \in Api(m)}) = Cardinality(Api(m))
            /\ \A i \in DOMAIN m.fields : Methods(m.fields[i]) \subseteq Api(m)
            /\ Cardinality(Api(m)) = 3 + 2 * Cardinality(
                   {i \in DOMAIN m.fields : m.fields[i].label # "repeated" \/ m.fields[i].kind = "msg"})

\* Iterator types can be told apart by a generator that sees one file at a time.
Iterators ==
    done => \A k, n \in DOMAIN msgs : \A i \in Reps(msgs[k]) : \A j \in Reps(msgs[n]) :
        (k # n \/ msgs[k].fields[i].elem # msgs[n].fields[j].elem) =>
            IterNames(msgs[k], msgs[k].fields[i]) \cap IterNames(msgs[n], msgs[n].fields[j]) = {}

EmitStep ==
    (Emit /\ done' /\ ~done)
        => PrintT("@T " \o ToJson([syntax |-> syntax, pkg |-> pkg, extra |-> extra,
                    msgs |-> [k \in DOMAIN msgs |->
                        [name |-> msgs[k].name, file |-> msgs[k].file, extra |-> msgs[k].extra,
                         fields |-> [i \in DOMAIN msgs[k].fields |->
                             msgs[k].fields[i] @@ [go |-> GoName(msgs[k].fields[i].name)]],
                         api |-> Api(msgs[k])]]]))
=============================================================================
