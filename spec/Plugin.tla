-------------------------------- MODULE Plugin --------------------------------
(* The protoc plugin as a function of requests.                              *)
(*                                                                           *)
(* A file is [path, body]: a path is a sequence of one-character strings that *)
(* ends in ".proto", and body says what is declared in the file. A request    *)
(* lists the files that the compiler has read, imported ones included, with   *)
(* distinct paths, and the paths that output is wanted for, some of them      *)
(* perhaps twice. It also has a parameter and the version of the compiler,    *)
(* of which no output depends. One process may be asked any number of times,  *)
(* and there may be any number of processes.                                  *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, GPools

CONSTANTS MaxRuns, MaxFiles, MaxTwice, Emit

VARIABLES files,    \* the request in preparation: what the compiler has read
          want,     \* and the paths that output is wanted for
          asked,    \* the requests so far
          given     \* the answers so far

vars == <<files, want, asked, given>>

Ext == <<".", "p", "r", "o", "t", "o">>
NewExt == <<".", "z", "e", "r", "o", "p", "b", ".", "g", "o">>
IsProto(p) == Len(p) >= 6 /\ SubSeq(p, Len(p) - 5, Len(p)) = Ext

\* The name of the output for a file: only the extension is another one.
OutName(p) == SubSeq(p, 1, Len(p) - 6) \o NewExt

\* What a file's output says, left abstract: it is determined by the file.
Content(f) == f

Wanted(req) == SelectSeq(req.files, LAMBDA f : \E i \in DOMAIN req.want : req.want[i] = f.path)
Answer(req) == {[name |-> OutName(f.path), content |-> Content(f)] : f \in ToSet(Wanted(req))}

Init == files = << >> /\ want = << >> /\ asked = << >> /\ given = << >>

Read(f) ==
    /\ Len(asked) < MaxRuns /\ Len(files) < MaxFiles /\ want = << >>
    /\ \A i \in DOMAIN files : files[i].path # f.path
    /\ files' = Append(files, f)
    /\ UNCHANGED <<want, asked, given>>

Want(p) ==
    /\ (p \in ToSet(want) => Len(want) < Cardinality(ToSet(want)) + MaxTwice)
    /\ want' = Append(want, p)
    /\ UNCHANGED <<files, asked, given>>

Ask(o) ==
    /\ Len(asked) < MaxRuns /\ want # << >>
    /\ LET req == [files |-> files, want |-> want, opt |-> o]
       IN  asked' = Append(asked, req) /\ given' = Append(given, Answer(req))
    /\ files' = << >> /\ want' = << >>

Next == (\E o \in Options : Ask(o)) \/ (\E f \in Files : Read(f)) \/ (\E i \in DOMAIN files : Want(files[i].path))

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* The properties.                                                           *)

\* Names have the same directory and do not collide, whatever the paths are.
AllPaths == {f.path : f \in Files}
Dir(p) == LET s == {i \in DOMAIN p : p[i] = "/"}
          IN  IF s = {} THEN << >> ELSE SubSeq(p, 1, CHOOSE i \in s : \A j \in s : j <= i)
NamesFit ==
    (asked = << >> /\ files = << >>) =>        \* (once: it is about no state)
    /\ \A p \in AllPaths : IsProto(p) /\ Dir(OutName(p)) = Dir(p)
    /\ \A p, q \in AllPaths : OutName(p) = OutName(q) => p = q

\* One output for each wanted file, and nothing else.
Exactly ==
    \A i \in DOMAIN asked :
        /\ Cardinality(given[i]) = Cardinality(ToSet(asked[i].want))
        /\ {o.name : o \in given[i]} = {OutName(asked[i].want[j]) : j \in DOMAIN asked[i].want}

\* A file's output does not depend on the request or on earlier ones.
Stable ==
    \A i, j \in DOMAIN asked : \A o \in given[i] : \A p \in given[j] :
        \A f \in ToSet(asked[i].files) :
            (f \in ToSet(asked[j].files) /\ o.name = OutName(f.path) /\ p.name = o.name)
                => o.content = p.content

\* Each request, or with MaxRuns > 1 each whole behaviour.
EmitStep ==
    (Emit /\ Len(asked') = MaxRuns /\ Len(asked) < MaxRuns) => PrintT("@T " \o ToJson(asked'))
=============================================================================
