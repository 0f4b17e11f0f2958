------------------------------ MODULE PluginTrace ------------------------------
(* Validates what the plugin commands did against Plugin.tla (events "ask")   *)
(* and PluginProc.tla (events "run").                                         *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils

Tr == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l,      \* next event
          seen,   \* file -> what its output was the first time
          viol

vars == <<l, seen, viol>>

Ext == <<".", "p", "r", "o", "t", "o">>
NewExt == <<".", "z", "e", "r", "o", "p", "b", ".", "g", "o">>
OutName(p) == SubSeq(p, 1, Len(p) - 6) \o NewExt

If(c, name) == IF c THEN {name} ELSE {}
Put1(fn, key, x) == [k \in DOMAIN fn \cup {key} |-> IF k = key THEN x ELSE fn[k]]

\* ask: [req |-> [files, want], res |-> <<[how, err, files |-> <<[name, sum]>>, whole]>>].
Outs(r, p) == SelectSeq(r.files, LAMBDA o : o.name = OutName(p))
ResClauses(req, r, sn) ==
    IF r.err # "" THEN {r.err}
    ELSE If(\E i \in DOMAIN req.want : Outs(r, req.want[i]) = << >>, "missing")
         \cup If(\E i \in DOMAIN req.want : Len(Outs(r, req.want[i])) > 1, "duplicate")
         \cup If(\E i \in DOMAIN r.files : \A j \in DOMAIN req.want :
                     r.files[i].name # OutName(req.want[j]), "extra")
         \cup If(\E i \in DOMAIN req.files : \E o \in ToSet(Outs(r, req.files[i].path)) :
                     sn[req.files[i]] # o.sum, "content")

\* Remembers the outputs of files that were not seen before.
Learn(req, rs, sn) ==
    FoldLeft(LAMBDA a, f :
        LET first == FoldLeft(LAMBDA b, r : IF b # "" \/ r.err # "" \/ Outs(r, f.path) = << >> THEN b
                                            ELSE Outs(r, f.path)[1].sum, "", rs)
        IN  IF f \in DOMAIN a \/ first = "" THEN a ELSE Put1(a, f, first), sn, req.files)

AskClauses(ev, sn) ==
    UNION {ResClauses(ev.req, ev.res[i], sn) : i \in DOMAIN ev.res}
    \cup If(\E i, j \in DOMAIN ev.res : ev.res[i].err = "" /\ ev.res[j].err = ""
                /\ ev.res[i].how = ev.res[j].how /\ ev.res[i].whole # ev.res[j].whole, "unstable")

\* run: tool, in, sink, verdict; status (-1: a signal), told, parsed, names, text, hang.
RunClauses(ev) ==
    LET good == ev.sink.k = "good"
        ok == ev.status = 0
    IN  If(ev.hang, "hang")
        \cup If(ok /\ ev.verdict.cls = "no", "success:input")
        \cup If(ok /\ ~good, "success:output")
        \cup If(ok /\ good /\ ev.tool = "zeropb" /\ ev.verdict.cls # "no" /\ ~ev.parsed, "success:garbled")
        \cup If(ok /\ good /\ ev.tool = "zeropb" /\ ev.parsed /\ ev.verdict.known
                /\ ToSet(ev.names) # ToSet(ev.verdict.names), "success:incomplete")
        \cup If(ok /\ good /\ ev.tool = "text" /\ ev.verdict.cls = "yes" /\ ev.text # "same", "text")
        \cup If(~ok /\ ~ev.hang /\ ~ev.told /\ (good \/ ev.tool = "zeropb") /\ ~(ev.status = -1 /\ ev.sink.k = "gone"),
                "silent")
        \cup If(~ok /\ good /\ ev.in.k \in {"whole", "chunked"}, "refused")

Init == l = 1 /\ seen = << >> /\ viol = << >>

Next ==
    /\ l <= Len(Tr)
    /\ LET ev == Tr[l]
           sn == IF ev.e = "ask" THEN Learn(ev.req, ev.res, seen) ELSE seen
           cl == IF ev.e = "ask" THEN AskClauses(ev, sn) ELSE RunClauses(ev)
       IN  /\ seen' = sn
           /\ viol' = IF cl = {} THEN viol ELSE Append(viol, [l |-> l, cl |-> cl])
           /\ l' = l + 1

Spec == Init /\ [][Next]_vars

Report == l = Len(Tr) + 1 => PrintT("@V " \o ToJson(viol)) /\ PrintT("@END " \o ToString(Len(Tr)))
=============================================================================
