----------------------------- MODULE BlackBoxTrace ------------------------------
(* Judges recorded histories of real components with black boxes.                      *)
(* [ev |-> "begin"]                                                                        *)
(* [ev |-> "node", o, bb, n, m]  a new component; a black box has n inputs and m outputs     *)
(* [ev |-> "put", o, f, x]  field f of o is now the component x, or no component (x = 0)       *)
(* [ev |-> "find", o, list]  what discovery from o listed: <<[path, o]>>; o = 0 an object that   *)
(*     is not known                                                                               *)
(* [ev |-> "get", o, path, out]  the object named by a path, 0 if refused                           *)
(* [ev |-> "set", o, v, ok]   outputs presented, accepted or not                                     *)
(* [ev |-> "call", o, a, out, how]   arguments in declared order, the outputs answered, <<>> if refused *)
(* [ev |-> "ins", o, out]   the arguments read back, <<>> if refused                                     *)
(* [ev |-> "result", got, want]   what a component returned that passes on what a box answered   *)
EXTENDS BlackBox, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i
Say(b, c, x) == IF b THEN TRUE ELSE PrintT("FAIL " \o ToJson([i |-> i, clause |-> c, detail |-> <<ToString(x)>>]))
TInit == /\ g = [bb |-> {}, fields |-> [o \in {} |-> 0]] /\ latch = [o \in {} |-> 0] /\ log = <<>> /\ i = 1
Range(s) == { s[k] : k \in DOMAIN s }
Step(e) ==
  CASE e.ev = "begin" ->
         /\ g' = [bb |-> {}, fields |-> [o \in {} |-> 0]] /\ latch' = [o \in {} |-> 0] /\ UNCHANGED log
    [] e.ev = "node" ->
         /\ g' = [bb |-> IF e.bb THEN g.bb \cup {e.o} ELSE g.bb,
                  fields |-> [o \in DOMAIN g.fields \cup {e.o} |-> IF o = e.o THEN [f \in {} |-> 0] ELSE g.fields[o]]]
         /\ latch' = IF e.bb THEN [o \in DOMAIN latch \cup {e.o} |-> IF o = e.o THEN Fresh(e.n, e.m) ELSE latch[o]] ELSE latch
         /\ UNCHANGED log
    [] e.ev = "put" ->
         /\ g' = [g EXCEPT !.fields[e.o] =
                    IF e.x = 0 THEN [h \in DOMAIN @ \ {e.f} |-> @[h]]
                    ELSE [h \in DOMAIN @ \cup {e.f} |-> IF h = e.f THEN e.x ELSE @[h]]]
         /\ UNCHANGED <<latch, log>>
    [] e.ev = "find" ->
         /\ Say(e.ok /\ ListingOK(g, e.o, Range(e.list)) /\ Cardinality(Range(e.list)) = Len(e.list), "listing", <<e, BoxesOf(g, e.o)>>)
         /\ UNCHANGED vars
    [] e.ev = "get" ->
         /\ Say(e.out = Walk(g, e.o, e.path), "path", <<e, Walk(g, e.o, e.path)>>)
         /\ UNCHANGED vars
    [] e.ev = "set" ->
         /\ Say(e.ok = SetOK(latch[e.o], e.v), "set", e)
         /\ latch' = [latch EXCEPT ![e.o] = AfterSet(@, e.v)]
         /\ UNCHANGED <<g, log>>
    [] e.ev = "call" ->
         /\ Say(e.out = (IF CallOK(latch[e.o], e.a) /\ e.form THEN latch[e.o].outs ELSE <<>>), "answer", <<e, latch[e.o]>>)
         /\ latch' = [latch EXCEPT ![e.o] = IF e.form THEN AfterCall(@, e.a) ELSE @]
         /\ UNCHANGED <<g, log>>
    [] e.ev = "ins" ->
         /\ Say(e.out = latch[e.o].ins, "inputs", <<e, latch[e.o]>>)
         /\ UNCHANGED vars
    [] e.ev = "result" ->
         /\ Say(e.got = e.want, "result", e)
         /\ UNCHANGED vars
    [] OTHER -> Say(FALSE, "what", e) /\ UNCHANGED vars
TNext == /\ i <= Len(T)
         /\ Step(T[i])
         /\ (i = Len(T) => PrintT("DONE " \o ToJson([n |-> Len(T)])))
         /\ i' = i + 1
TSpec == TInit /\ [][TNext]_<<vars, i>>
=============================================================================
