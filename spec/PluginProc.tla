------------------------------ MODULE PluginProc ------------------------------
(* One run of a plugin command: it reads standard input, makes sense of it,   *)
(* writes its output and ends. The input may be cut short, corrupted or       *)
(* unreadable, and the output may be refused at any point.                    *)
EXTENDS Request, TLC, Json, IOUtils

CONSTANTS Stride,    \* between the positions at which output is refused
          Every,     \* between the positions at which long requests are changed
          Emit

\* The requests and the lengths of the commands' output for them, from the harness.
Requests == ndJsonDeserialize(IOEnv.REQUESTS)
Seed == atoi(IOEnv.SEED)
Tools == {"zeropb", "text"}

VARIABLES tool, req, in, sink,     \* the environment
          verdict,                 \* what the specification makes of the input
          pc, sent, status, told   \* the process

vars == <<tool, req, in, sink, verdict, pc, sent, status, told>>

In(k, n, b) == [k |-> k, n |-> n, b |-> b]
Sink(k, n) == [k |-> k, n |-> n]
Good == Sink("good", 0)

Values(x, n) == {(x + 1) % 256, (x + 255) % 256, (x + 128) % 256, (37 * n + 101 * Seed) % 256} \ {x}

\* "chunked": in pieces of n bytes. "reset": n bytes, then an error.
Inputs(q) ==
    LET s == Requests[q].bytes      \* (empty for the big ones)
        l == Requests[q].len
    IN  {In("whole", 0, 0), In("directory", 0, 0), In("write-only", 0, 0)}
        \cup {In("chunked", n, 0) : n \in {l \div 3, l \div 2, l - 1}}
        \cup {In("reset", n, 0) : n \in {x \in {0, 70000, l \div 2, l - 1, l} : x <= l /\ x < 500000}}
        \cup IF Requests[q].big THEN {In("cut", l \div 2, 0)}
             ELSE LET at(k) == {n \in 1..l : l < 500 \/ n % Every = (Seed + k) % Every}
                  IN  {In("cut", n - 1, 0) : n \in at(0)}
                  \cup {In("del", n, 0) : n \in at(1)}
                  \cup UNION {{In("set", n, b) : b \in Values(s[n], n)} : n \in at(2)}
                  \cup {In("ins", n, (59 * n + 7 * Seed) % 256) : n \in at(3)}
                  \cup {In("reset", n, 0) : n \in at(4)}
                  \cup {In("chunked", n, 0) : n \in {5, 13}}

Step(m) == IF m > 200000 THEN m \div 5 ELSE IF m > 20000 THEN 20011 ELSE Stride
Sinks(q, t) ==
    LET m == Requests[q].out[t]
    IN  {Sink("limit", n) : n \in {x \in 0..(m - 1) : x % Step(m) = Seed % Step(m) \/ x < 3 \/ x > m - 3}}
        \cup {Sink("full", 0), Sink("gone", 0)}

Apply(s, i) ==
    CASE i.k = "cut" -> SubSeq(s, 1, i.n)
      [] i.k = "del" -> RemoveAt(s, i.n)
      [] i.k = "set" -> [s EXCEPT ![i.n] = i.b]
      [] i.k = "ins" -> InsertAt(s, i.n, i.b)
      [] OTHER -> s

Readable(i) == i.k \notin {"directory", "write-only", "reset"}
Intact(i) == i.k \in {"whole", "chunked"}

Ext == <<46, 112, 114, 111, 116, 111>>
NewExt == <<46, 122, 101, 114, 111, 112, 98, 46, 103, 111>>
IsProto(p) == Len(p) >= 6 /\ SubSeq(p, Len(p) - 5, Len(p)) = Ext
OutName(p) == SubSeq(p, 1, Len(p) - 6) \o NewExt

\* The input, run-length encoded.
Input(q, i) ==
    IF ~Requests[q].big THEN BOf(Apply(Requests[q].bytes, i))
    ELSE IF i.k = "cut" THEN BTake(Requests[q].runs, i.n) ELSE Requests[q].runs

\* cls: "yes", "no" or "open". names: of the output files, if names are known.
Verdict(q, i) ==
    LET s == Input(q, i)
        cls == IF ~Readable(i) THEN "no" ELSE Understood(s, "request")
        want == {Plain(n) : n \in WantedNames(s)}
        known == cls = "yes" /\ WantedNames(s) \subseteq FileNames(s) /\ \A n \in want : IsProto(n)
    IN  [cls |-> cls, known |-> known, names |-> IF known THEN {OutName(n) : n \in want} ELSE {}]

Init ==
    /\ tool \in Tools /\ req \in DOMAIN Requests
    /\ \/ in \in Inputs(req) /\ sink = Good
       \/ in = In("whole", 0, 0) /\ sink \in Sinks(req, tool)
       \/ in = In("cut", 1, 0) /\ sink = Sink("full", 0)
    /\ verdict = Verdict(req, in)
    /\ pc = "read" /\ sent = "none" /\ status = 0 /\ told = FALSE

Goto(p) == pc' = p /\ UNCHANGED <<tool, req, in, sink, verdict>>

Read ==
    /\ pc = "read"
    /\ Goto(IF Readable(in) THEN "parse" ELSE "fail")
    /\ UNCHANGED <<sent, status, told>>

\* A request that is whole must be served, one that is none must be rejected.
Accept ==
    /\ pc = "parse" /\ verdict.cls # "no" /\ Goto("send")
    /\ UNCHANGED <<sent, status, told>>
Reject ==
    /\ pc = "parse" /\ ~Intact(in) /\ Goto("fail")
    /\ UNCHANGED <<sent, status, told>>

Send ==
    /\ pc = "send" /\ sink = Good /\ sent' = "all" /\ Goto("done")
    /\ UNCHANGED <<status, told>>
SendFails ==
    /\ pc = "send" /\ sink # Good
    /\ sent' \in (IF sink.k = "limit" /\ sink.n > 0 THEN {"none", "part"} ELSE {"none"})
    /\ Goto("fail")
    /\ UNCHANGED <<status, told>>

\* Writing to a pipe that nobody reads kills.
Killed ==
    /\ pc \in {"send", "fail"} /\ sink.k = "gone" /\ status' = -1 /\ Goto("end")
    /\ UNCHANGED <<sent, told>>

Fail ==
    /\ pc = "fail" /\ status' = 1 /\ told' \in (IF sink = Good \/ tool = "zeropb" THEN {TRUE} ELSE {TRUE, FALSE})
    /\ Goto("end") /\ UNCHANGED sent
Succeed ==
    /\ pc = "done" /\ status' = 0 /\ Goto("end") /\ UNCHANGED <<sent, told>>

Next == Read \/ Accept \/ Reject \/ Send \/ SendFails \/ Killed \/ Fail \/ Succeed

Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
(* The properties.                                                           *)
Honest ==
    pc = "end" =>
        /\ status = 0 => sent = "all" /\ Readable(in) /\ verdict.cls # "no" /\ sink = Good
        /\ status > 0 => told \/ sink # Good
        /\ (Intact(in) /\ sink = Good) => status = 0
Ends == <>(pc = "end")

\* What is whole must be understood, or the specification is wrong.
Whole == Intact(in) => verdict.cls = "yes"

EmitStep ==
    (Emit /\ pc = "read" /\ pc' # "read")
        => PrintT("@T " \o ToJson([tool |-> tool, req |-> req, in |-> in, sink |-> sink, verdict |-> verdict]))
=============================================================================
