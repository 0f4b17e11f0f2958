-------------------------------- MODULE Trace --------------------------------
(* Validates traces recorded from the real code against Content.tla.         *)
(*                                                                           *)
(* A file holds many traces; a "new" event begins one. Every other event is  *)
(* one call on the real code with its arguments, its outcome, and what was   *)
(* observed afterwards of the messages concerned. The specification computes *)
(* what the outcome and the observations must be. An event that deviates is  *)
(* recorded with the names of the clauses it breaks, and the rest of that    *)
(* trace is skipped: the contents are unknown from there on.                 *)
EXTENDS Content, TLC, Json, IOUtils

TraceFile == IOEnv.TRACE
Tr == ndJsonDeserialize(TraceFile)

VARIABLES l,      \* next event
          sch,    \* schemas of the current trace, a sequence
          rel,    \* the clauses that count in this trace
          obj,    \* messages: id -> state
          its,    \* iterators: id -> [o, f, left, n, ok]
          skip,   \* the rest of this trace is skipped
          viol    \* <<[t, l, e, cl]>>

vars == <<l, sch, rel, obj, its, skip, viol>>

\* A message: schema m, contents c, occurrences occ; ok: contents are known and
\* valid; safe: accessors must return; built: made by setters alone; len: upper
\* bound of the length; last: payload length of the occurrence that counts; up:
\* the message, field and index it was extracted from, whose memory it may share;
\* free: fields that were assigned while their last occurrence had another wire
\* type. (That occurrence may go, or stay as if it were an unknown field.)
NewObj(m) == [m |-> m, c |-> Empty(sch[m]), ok |-> TRUE, safe |-> TRUE, built |-> TRUE,
              occ |-> [f \in Singular(sch[m]) |-> 0],
              len |-> 0, last |-> [f \in Singular(sch[m]) |-> 0], up |-> << >>,
              free |-> {}]

\* x after decoding what parses to p, with or without error.
Decoded(x, p, err, up) ==
    LET s == sch[x.m]
        c == OfRecs(s, p.recs)
        good == p.bad = "" /\ ~err
    IN  [x EXCEPT !.c = c, !.occ = Occ(s, p.recs), !.built = FALSE,
                  !.ok = good /\ c.odd = {}, !.safe = good, !.free = {},
                  !.len = FoldLeft(LAMBDA a, r : a + r.n, 0, p.recs),
                  !.last = FoldLeft(LAMBDA a, r : IF r.f \in DOMAIN a
                                                  THEN [a EXCEPT ![r.f] = r.n - r.t] ELSE a,
                                    [f \in Singular(s) |-> 0], p.recs),
                  !.up = up]

\* x after a setter.
Assigned(x, f, v) ==
    LET k == sch[x.m][f].k
        n == BLen(EncPayload(k, v))
        new == f \in x.c.bad
    IN  [x EXCEPT !.c = Assign(@, f, v),
                  !.free = IF new THEN @ \cup {f} ELSE @,
                  !.occ[f] = IF @ = 0 THEN 1 ELSE @,
                  !.len = @ + n + (IF new \/ x.occ[f] = 0 THEN TagLen(f) ELSE 0)
                            - (IF new THEN 0 ELSE x.last[f]),
                  !.last[f] = n]

Pushed(x, f, v) ==
    [x EXCEPT !.c = Push(@, f, v), !.len = @ + TagLen(f) + BLen(EncPayload("msg", v))]

SchemaOf(list) ==
    LET fs == {list[i][1] : i \in DOMAIN list}
    IN  [f \in fs |-> LET i == CHOOSE j \in DOMAIN list : list[j][1] = f
                      IN  [k |-> list[i][2], r |-> list[i][3] = 1]]

\* Message key becomes x. What was extracted from it earlier has lost its place.
Become(objs, key, x) ==
    [k \in DOMAIN objs \cup {key} |->
        IF k = key THEN x
        ELSE IF objs[k].up # << >> /\ objs[k].up[1] = key
        THEN [objs[k] EXCEPT !.up = << >>, !.ok = FALSE, !.safe = FALSE]
        ELSE objs[k]]

Put1(fn, key, x) == [k \in DOMAIN fn \cup {key} |-> IF k = key THEN x ELSE fn[k]]

-----------------------------------------------------------------------------
If(cond, name) == IF cond THEN {name} ELSE {}

\* Must Decode accept the buffer?
Verdict(p) ==
    IF p.bad # "" THEN "err"
    ELSE IF \E i \in DOMAIN p.recs : p.recs[i].f = Big THEN "open"
    ELSE "ok"

ErrClauses(p, err, accept, reject) ==
    If(Verdict(p) = "ok" /\ err, accept) \cup If(Verdict(p) = "err" /\ ~err, reject)

\* Deviations of an observation ob of message x; self is the field operated on.
ReadClauses(s, x, ob, self) ==
    LET c == x.c
        who(f) == IF f = self THEN "self" ELSE IF self = 0 THEN "dec" ELSE "other"
    IN  UNION {If(ob.s[i][1] \notin c.bad /\ ~Agree(ob.s[i][2], Value(s, c, ob.s[i][1])),
                  "read:" \o who(ob.s[i][1]))
                 : i \in DOMAIN ob.s}
        \cup UNION {LET b == ob.b[i]
                        v == c.sing[b[1]]
                    IN  IF b[1] \in c.bad THEN {}
                        ELSE If(b[2] # (v # << >>), "sub:present")
                        \cup (IF v = << >> \/ ~b[2] THEN {}
                              ELSE If(~b[3] /\ b[4] # v[1], "sub:" \o who(b[1]))
                                   \cup ErrClauses(Parse(v[1]), b[3], "sub:err", "sub:noerr"))
                      : i \in DOMAIN ob.b}
        \cup UNION {LET r == ob.r[i]
                        v == c.rep[r[1]]
                    IN  IF Len(r[2]) # Len(v) THEN {"rep:" \o who(r[1])}
                        ELSE UNION {If(~r[2][j][1] /\ r[2][j][2] # v[j], "rep:" \o who(r[1]))
                                    \cup ErrClauses(Parse(v[j]), r[2][j][1], "rep:err", "rep:noerr")
                                      : j \in DOMAIN v}
                      : i \in DOMAIN ob.r}

EncClauses(s, x, ob, self) ==
    LET p == Parse(ob.enc)
        c == x.c
        got == OfRecs(s, p.recs)
    IN  IF p.bad # "" THEN {"enc:malformed"}
        ELSE If(~SameMis(got, c, x.free), "enc:wire")
             \cup If(~SameSing(got, c) \/ got.rep # c.rep, "enc:content")
             \cup If(got.unk # c.unk, "enc:unknown")
             \cup If(\E f \in DOMAIN x.occ \ x.free : Occurrences(p.recs, f) # x.occ[f], "enc:residue")
             \cup (IF x.built /\ \E i \in DOMAIN p.recs :
                        LET r == p.recs[i]
                            k == s[r.f].k
                        IN  r.f \in DOMAIN s /\ r.w = WireOf(k)
                            /\ BLen(EncField(r.f, k, Meaning(k, r.v))) # r.n
                   THEN {"enc:residue"} ELSE {})
             \cup If("split" \in got.odd, "enc:split")
             \cup If(BLen(ob.enc) > x.len, "enc:length")

\* The field just set has exactly the prescribed encoding.
CanonClauses(s, x, ob, f, v) ==
    LET p == Parse(ob.enc)
        k == s[f].k
        at == {i \in DOMAIN p.recs : p.recs[i].f = f /\ (f \in x.free => p.recs[i].w = WireOf(k))}
    IN  IF p.bad # "" THEN {"canon"}
        ELSE IF at = {} THEN {"canon"}
        ELSE LET r == p.recs[CHOOSE i \in at : \A j \in at : j <= i]
             IN  If(r.w # WireOf(k) \/ r.v # Payload(k, v)
                      \/ r.n - r.t # BLen(EncPayload(k, v))
                      \/ (x.built /\ r.t # TagLen(f)), "canon")

\* Accessors that did not return normally.
BadClauses(s, ob) ==
    {LET f == ob.bad[i][1]
     IN  (IF f = 0 THEN "enc" ELSE IF s[f].r THEN "rep" ELSE IF s[f].k = "msg" THEN "sub" ELSE "read")
           \o (IF ob.bad[i][2] = "fault" THEN ":fault" ELSE ":panic")
       : i \in DOMAIN ob.bad}

ObsClauses(s, x, ob, self) ==
    IF ~x.safe THEN {}
    ELSE BadClauses(s, ob) \cup If(~ob.pure, "impure")
         \cup (IF ~x.ok THEN {}
               ELSE ReadClauses(s, x, ob, self)
                    \cup (IF \E i \in DOMAIN ob.bad : ob.bad[i][1] = 0 THEN {}
                          ELSE EncClauses(s, x, ob, self)))

-----------------------------------------------------------------------------
IsEvent(name) == l <= Len(Tr) /\ Tr[l].e = name /\ ~skip /\ l' = l + 1

ev == Tr[l]

\* All observations of this event, judged against the messages in objs.
PostClauses(objs, self) ==
    UNION {LET ob == ev.post[i] IN
             ObsClauses(sch[objs[ob.o].m], objs[ob.o], ob,
                        IF ob.o = ev.o \/ self = 0 THEN self ELSE -1)
             : i \in DOMAIN ev.post}

Relevant(clauses) == IF "all" \in rel THEN clauses ELSE clauses \cap rel

\* Whether the call under test returned normally.
Came == "res" \notin DOMAIN ev \/ ev.res = "ok"

Judge(clauses) ==
    LET hits == Relevant(clauses)
    IN  /\ skip' = (hits # {} \/ ~Came)
        /\ viol' = IF hits = {} THEN viol
                   ELSE Append(viol, [t |-> ev.t, l |-> l, e |-> ev.e,
                                      id |-> IF "id" \in DOMAIN ev THEN ev.id ELSE "",
                                      cl |-> SetToSeq(hits)])

OpClauses == If(ev.res # "ok", "op:" \o ev.res)

\* A mutation of an extracted message may show in the field it came from, and
\* nowhere else: take the contents of that field from the observation.
RECURSIVE Shared(_, _)
Shared(objs, o) ==
    LET up == objs[o].up
    IN  IF up = << >> THEN objs
        ELSE LET p == up[1]
                 f == up[2]
                 s == sch[objs[p].m]
                 seen == {i \in DOMAIN ev.post : ev.post[i].o = p}
             IN  IF seen = {} THEN objs
                 ELSE LET q == Parse(ev.post[CHOOSE i \in seen : TRUE].enc)
                          got == OfRecs(s, q.recs)
                      IN  IF q.bad # "" THEN objs
                          ELSE IF f \in DOMAIN got.sing
                          THEN IF got.sing[f] = << >> THEN objs
                               ELSE Shared([objs EXCEPT ![p].c.sing[f] = got.sing[f]], p)
                          ELSE IF up[3] \notin DOMAIN got.rep[f]
                                  \/ Len(got.rep[f]) # Len(objs[p].c.rep[f])
                          THEN objs
                          ELSE Shared([objs EXCEPT ![p].c.rep[f][up[3]] = got.rep[f][up[3]]], p)

\* Messages that were extracted from the same place as o share its memory: after
\* o was mutated they are of no use.
RECURSIVE Ups(_, _)
Ups(objs, o) == LET up == objs[o].up
                IN  IF up = << >> THEN {} ELSE {up} \cup Ups(objs, up[1])
RECURSIVE Chain(_, _)
Chain(objs, o) == IF objs[o].up = << >> THEN {o} ELSE {o} \cup Chain(objs, objs[o].up[1])

Stale(objs, o) ==
    IF objs[o].up = << >> THEN objs
    ELSE LET line == Chain(objs, o)
             ups == Ups(objs, o)
             gone(z) == \E y \in Chain(objs, z) \ line : objs[y].up \in ups
         IN  [z \in DOMAIN objs |-> IF gone(z) THEN [objs[z] EXCEPT !.ok = FALSE, !.safe = FALSE]
                                    ELSE objs[z]]

TrNew ==
    /\ l <= Len(Tr) /\ Tr[l].e = "new" /\ l' = l + 1
    /\ sch' = [i \in DOMAIN ev.sch |-> SchemaOf(ev.sch[i])]
    /\ rel' = {ev.rel[i] : i \in DOMAIN ev.rel}
    /\ obj' = << >> /\ its' = << >> /\ skip' = FALSE /\ UNCHANGED viol

TrSkip ==
    /\ l <= Len(Tr) /\ skip /\ Tr[l].e # "new" /\ l' = l + 1
    /\ UNCHANGED <<sch, rel, obj, its, skip, viol>>

TrObj ==
    /\ IsEvent("obj")
    /\ obj' = Put1(obj, ev.o, NewObj(ev.m))
    /\ UNCHANGED <<sch, rel, its, skip, viol>>

\* A setter of a singular field.
TrSet ==
    /\ IsEvent("set")
    /\ LET x == obj[ev.o]
           y == Assigned(x, ev.f, ev.v)
           o2 == Stale(Shared(Put1(obj, ev.o, y), ev.o), ev.o)
       IN  /\ obj' = o2
           /\ Judge(IF ~x.ok THEN {}
                    ELSE OpClauses \cup
                    (IF ~Came THEN {}
                     ELSE PostClauses(o2, ev.f)
                          \cup (IF ev.post # << >>
                                THEN CanonClauses(sch[x.m], y, ev.post[1], ev.f, ev.v)
                                ELSE {})))
    /\ UNCHANGED <<sch, rel, its>>

\* Appending to a repeated message field.
TrApp ==
    /\ IsEvent("app")
    /\ LET x == obj[ev.o]
           o2 == Stale(Shared(Put1(obj, ev.o, Pushed(x, ev.f, ev.v)), ev.o), ev.o)
       IN  /\ obj' = o2
           /\ Judge(IF ~x.ok THEN {}
                    ELSE OpClauses \cup (IF ~Came THEN {} ELSE PostClauses(o2, ev.f)))
    /\ UNCHANGED <<sch, rel, its>>

TrDec ==
    /\ IsEvent("dec")
    /\ LET p == Parse(ev.v)
           o2 == Become(obj, ev.o, Decoded(obj[ev.o], p, ev.err, << >>))
       IN  /\ obj' = o2
           /\ Judge(IF ~Came THEN {"dec:" \o ev.res}
                    ELSE ErrClauses(p, ev.err, "dec:accept", "dec:reject")
                         \cup PostClauses(o2, 0))
    /\ UNCHANGED <<sch, rel, its>>

TrReset ==
    /\ IsEvent("rst")
    /\ LET o2 == Become(obj, ev.o, NewObj(obj[ev.o].m))
       IN  obj' = o2 /\ Judge(OpClauses \cup
                    (IF ~Came THEN {}
                     ELSE PostClauses(o2, -1) \cup If(ev.cap # ev.gave, "reset:cap")))
    /\ UNCHANGED <<sch, rel, its>>

\* Only observes. Observing one message twice must give the same.
TrObs ==
    /\ IsEvent("obs")
    /\ Judge(PostClauses(obj, -1)
             \cup If(\E i, j \in DOMAIN ev.post :
                       ev.post[i].o = ev.post[j].o /\ ev.post[i] # ev.post[j], "unstable"))
    /\ UNCHANGED <<sch, rel, obj, its>>

\* The user wrote v over the bytes that the accessor of field f returned. That
\* changes field f, if the memory is shared, and nothing else.
TrPoke ==
    /\ IsEvent("poke")
    /\ LET x == obj[ev.o]
           ob == ev.post[1]
           now == {ob.s[i][2] : i \in {j \in DOMAIN ob.s : ob.s[j][1] = ev.f}}
           o2 == IF now = {ev.v} THEN Put1(obj, ev.o, [x EXCEPT !.c = Put(@, ev.f, ev.v)])
                 ELSE obj
       IN  obj' = o2 /\ Judge(PostClauses(o2, ev.f))
    /\ UNCHANGED <<sch, rel, its>>

\* Extracts a singular embedded message into message ev.x.
TrSub ==
    /\ IsEvent("sub")
    /\ LET p == obj[ev.o]
           v == p.c.sing[ev.f]
           q == Parse(IF v = << >> THEN << >> ELSE v[1])
           y == Decoded(obj[ev.x], q, ev.err, IF ev.x = ev.o THEN p.up ELSE <<ev.o, ev.f, 0>>)
           open == ev.f \in p.c.bad
           o2 == IF ~p.ok \/ open \/ v = << >> \/ ~ev.more
                 THEN IF ev.more THEN Become(obj, ev.x, [obj[ev.x] EXCEPT !.ok = FALSE, !.safe = FALSE])
                      ELSE obj
                 ELSE Become(obj, ev.x, y)
       IN  /\ obj' = o2
           /\ Judge(IF ~p.safe THEN {}
                    ELSE OpClauses \cup
                    (IF ~Came \/ ~p.ok \/ open THEN {}
                     ELSE If(ev.more # (v # << >>), "sub:present")
                          \cup (IF v = << >> \/ ~ev.more THEN {}
                                ELSE ErrClauses(q, ev.err, "sub:err", "sub:noerr")
                                     \cup PostClauses(o2, 0))))
    /\ UNCHANGED <<sch, rel, its>>

TrIter ==
    /\ IsEvent("iter")
    /\ its' = Put1(its, ev.it, [o |-> ev.o, f |-> ev.f, left |-> obj[ev.o].c.rep[ev.f], n |-> 0,
                                 ok |-> obj[ev.o].ok, safe |-> obj[ev.o].safe])
    /\ Judge(IF obj[ev.o].safe THEN OpClauses ELSE {})
    /\ UNCHANGED <<sch, rel, obj>>

TrNext ==
    /\ IsEvent("next")
    /\ LET it == its[ev.it]
           v == IF it.left = << >> THEN << >> ELSE Head(it.left)
           q == Parse(v)
           y == Decoded(obj[ev.x], q, ev.err, <<it.o, it.f, it.n + 1>>)
           o2 == IF ~it.ok \/ it.left = << >> \/ ~ev.more
                 THEN IF ev.more THEN Become(obj, ev.x, [obj[ev.x] EXCEPT !.ok = FALSE, !.safe = FALSE])
                      ELSE obj
                 ELSE Become(obj, ev.x, y)
       IN  /\ obj' = o2
           /\ its' = IF it.left = << >> THEN its
                     ELSE [its EXCEPT ![ev.it].left = Tail(@), ![ev.it].n = @ + 1]
           /\ Judge(IF ~it.safe THEN {}
                    ELSE OpClauses \cup
                    (IF ~Came \/ ~it.ok THEN {}
                     ELSE If(ev.more # (it.left # << >>), "rep:count")
                          \cup (IF it.left = << >> \/ ~ev.more THEN {}
                                ELSE ErrClauses(q, ev.err, "rep:err", "rep:noerr")
                                     \cup If(~ev.err /\ ev.v # v, "rep:content")
                                     \cup PostClauses(o2, 0))))
    /\ UNCHANGED <<sch, rel>>

\* A fresh message decodes what ev.o encodes: both must look alike.
TrCopy ==
    /\ IsEvent("copy")
    /\ LET x == obj[ev.o]
           y == [x EXCEPT !.built = FALSE, !.up = << >>]
           o2 == Become(obj, ev.x, y)
       IN  /\ obj' = o2
           /\ Judge(IF ~x.ok THEN {}
                    ELSE IF ~Came THEN {"copy:" \o ev.res}
                    ELSE If(ev.err, "copy:err")
                         \cup {"copy-" \o cl : cl \in PostClauses(o2, -1)})
    /\ UNCHANGED <<sch, rel, its>>

\* Two messages with the same history since Decode or Reset (C08).
Bare(ob) == [ob EXCEPT !.o = 0]
TrSame ==
    /\ IsEvent("same")
    /\ Judge(If(ev.out[1] # ev.out[2], "differ")
             \cup (IF ev.post = << >> THEN {}
                   ELSE If(Bare(ev.post[1]) # Bare(ev.post[2]), "differ")))
    /\ UNCHANGED <<sch, rel, obj, its>>

\* Memory that a call must not touch was compared byte for byte by the driver,
\* or a call that must panic was made.
TrMem ==
    /\ IsEvent("mem")
    /\ Judge(If(~ev.intact, "mem:" \o ev.what))
    /\ UNCHANGED <<sch, rel, obj, its>>

\* Heap allocations n of one call on a message of len bytes with capacity cap;
\* w: the field that is written, if any.
FieldLen(w) == LET k == sch[w.m][w.f].k IN BLen(EncTag(w.f, WireOf(k))) + BLen(EncPayload(k, w.v))
TrAlloc ==
    /\ IsEvent("alloc")
    /\ LET most == ev.len + (IF ev.w = << >> THEN 0 ELSE FieldLen(ev.w[1]))
       IN  Judge(If(ev.n > 0 /\ most < 65535 /\ most <= ev.cap, "alloc"))
    /\ UNCHANGED <<sch, rel, obj, its>>

\* A call made while observing did not return.
TrHang ==
    /\ IsEvent("hang")
    /\ Judge({"hang"})
    /\ UNCHANGED <<sch, rel, obj, its>>

\* Reading a declared field that was decoded with another wire type.
TrProbe ==
    /\ IsEvent("probe")
    /\ skip' = FALSE
    /\ viol' = IF Relevant(If(ev.res # "ok", "probe:read")) = {} THEN viol
               ELSE Append(viol, [t |-> ev.t, l |-> l, e |-> ev.e, id |-> ev.id,
                                  cl |-> <<"probe:read">>])
    /\ UNCHANGED <<sch, rel, obj, its>>

\* Setting such a field: the encoding must be well-formed.
TrProbeSet ==
    /\ IsEvent("probeset")
    /\ skip' = FALSE
    /\ viol' = IF Relevant(If(ev.res # "ok" \/ ~WellFormed(ev.enc), "probe:set")) = {} THEN viol
               ELSE Append(viol, [t |-> ev.t, l |-> l, e |-> ev.e, id |-> ev.id,
                                  cl |-> <<"probe:set">>])
    /\ UNCHANGED <<sch, rel, obj, its>>

\* A singular embedded message that was encoded in the parts p and q must be
\* read as both together, or be refused.
TrSplit ==
    /\ IsEvent("split")
    /\ LET s == sch[1]
           c == OfRecs(s, Parse(BCat(ev.p, ev.q)).recs)
           d == OfRecs(s, Parse(ev.sub).recs)
           good == ev.res = "ok" /\ (ev.err \/ SameContent(c, d))
       IN  /\ skip' = FALSE
           /\ viol' = IF good \/ Relevant({"split"}) = {} THEN viol
                      ELSE Append(viol, [t |-> ev.t, l |-> l, e |-> ev.e, id |-> ev.id,
                                         cl |-> <<"split">>])
    /\ UNCHANGED <<sch, rel, obj, its>>

Init == l = 1 /\ sch = << >> /\ rel = {} /\ obj = << >> /\ its = << >> /\ skip = FALSE
        /\ viol = << >>

Next == TrNew \/ TrSkip \/ TrObj \/ TrSet \/ TrApp \/ TrDec \/ TrReset \/ TrObs \/ TrPoke
        \/ TrSub \/ TrIter \/ TrNext \/ TrCopy \/ TrSame \/ TrMem \/ TrAlloc \/ TrHang
        \/ TrProbe \/ TrProbeSet \/ TrSplit

Spec == Init /\ [][Next]_vars

\* Printed when the whole file is consumed. (An event that no action consumes
\* leaves it unprinted, which the runner takes for an error of the machinery.)
Report ==
    l > Len(Tr) => /\ PrintT("@V " \o ToJson(viol))
                   /\ PrintT("@END " \o ToString(l - 1))
=============================================================================
