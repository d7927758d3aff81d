-------------------------------- MODULE IRTrace --------------------------------
(* Judges recorded uses of real IRs.  libs: the libraries of the trace, by number.       *)
(* [ev |-> "begin"]                                                                         *)
(* [ev |-> "add", l, d, ok]        a definition registered in library l, accepted or refused  *)
(* [ev |-> "list", l, names]       the instructions found in the library                        *)
(* [ev |-> "look", l, n, o]        the closure found under a name (o: its identity)                *)
(* [ev |-> "sig", l, n, fam, ins, outs]   the interface of the class for a family                    *)
(* [ev |-> "call", l, n, fam, in, out]      what the class for a family computes                        *)
EXTENDS IRLib, Json, IOUtils, TLC
T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, found, bad
\* bad: names whose registration is already judged wrong (it is reported; what follows is not judged)
Say(b, c, x) == IF b THEN TRUE ELSE PrintT("FAIL " \o ToJson([i |-> i, clause |-> c, detail |-> <<ToString(x)>>]))
TInit == lib = [l \in {} |-> <<>>] /\ asked = <<>> /\ i = 1 /\ found = [x \in {} |-> 0] /\ bad = {}
L(l) == IF l \in DOMAIN lib THEN lib[l] ELSE <<>>
Step(e) ==
  CASE e.ev = "begin" -> /\ lib' = [l \in {} |-> <<>>] /\ found' = [x \in {} |-> 0] /\ bad' = {} /\ UNCHANGED asked
    [] e.ev = "add" ->
         /\ Say(e.ok = Accepts(L(e.l), e.d.n), "registration", <<e, Listing(L(e.l))>>)
         /\ lib' = (e.l :> Add(L(e.l), e.d)) @@ lib
         /\ bad' = IF e.ok = Accepts(L(e.l), e.d.n) THEN bad ELSE bad \cup {<<e.l, e.d.n>>}
         /\ UNCHANGED <<asked, found>>
    [] e.ev = "list" ->
         /\ Say(e.names = Listing(L(e.l)), "listing", <<e, Listing(L(e.l))>>)
         /\ UNCHANGED <<vars, found, bad>>
    [] e.ev \in {"look", "sig", "call"} /\ <<e.l, e.n>> \in bad -> UNCHANGED <<vars, found, bad>>
    [] e.ev = "look" ->
         /\ LET k == <<e.l, e.n>>
            IN /\ Say(k \in DOMAIN found => found[k] = e.o, "retrieval", e)
               /\ Say(\A x \in DOMAIN found \ {k} : found[x] # e.o, "retrieval", e)
               /\ found' = (k :> e.o) @@ found
         /\ UNCHANGED <<vars, bad>>
    [] e.ev = "sig" ->
         /\ LET d == Def(L(e.l), e.n)
            IN /\ Say(e.ins = d.ins, "inputs", <<e, d.ins>>)
               /\ Say(e.outs = d.outs, "outputs", <<e, d.outs>>)
         /\ UNCHANGED <<vars, found, bad>>
    [] e.ev = "call" ->
         /\ Say(e.out = Compute(Def(L(e.l), e.n), e.in), "function", <<e, Compute(Def(L(e.l), e.n), e.in)>>)
         /\ UNCHANGED <<vars, found, bad>>
    [] OTHER -> Say(FALSE, "what", e) /\ UNCHANGED <<vars, found, bad>>
TNext == /\ i <= Len(T)
         /\ Step(T[i])
         /\ (i = Len(T) => PrintT("DONE " \o ToJson([n |-> Len(T)])))
         /\ i' = i + 1
TSpec == TInit /\ [][TNext]_<<vars, i, found, bad>>
=============================================================================
