------------------------------ MODULE StorageTrace ------------------------------
(* Judges recorded histories of real registers and memories against Storage.          *)
(* Events: [ev |-> "new", o, kind, w]  (w: the initial words),                         *)
(*   [ev |-> "acc", o, a, v, en, out]  out = <<value>>, or <<>> if the access was refused *)
(*   [ev |-> "read", o, a, out]   a look at a word that writes nothing                  *)
(*   [ev |-> "bad", o, refused]   a write of a value of another type                    *)
(*   [ev |-> "reset", o]          back to the initial words                             *)
EXTENDS Storage, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i
Say(b, e, c, x) == IF b THEN TRUE ELSE PrintT("FAIL " \o ToJson([i |-> i, clause |-> c, detail |-> <<ToString(x)>>]))
TInit == Init /\ i = 1
Obj(e) == st[e.o]
Step(e) ==
  CASE e.ev = "new" ->
         LET s == [kind |-> e.kind, w |-> e.w, init |-> e.w]
         IN /\ st' = [p \in DOMAIN st \cup {e.o} |-> IF p = e.o THEN s ELSE st[p]]
            /\ UNCHANGED <<hist, ans>>
    [] e.ev = "acc" ->
         /\ Say(e.out = Answer(Obj(e), e.a), e, "answer", Answer(Obj(e), e.a))
         /\ st' = [st EXCEPT ![e.o] = After(Obj(e), e.a, e.v, e.en = 1)]
         /\ UNCHANGED <<hist, ans>>
    [] e.ev = "read" ->
         /\ Say(e.out = Answer(Obj(e), e.a), e, "content", Answer(Obj(e), e.a))
         /\ UNCHANGED <<st, hist, ans>>
    [] e.ev = "bad" ->
         /\ Say(e.refused, e, "type", e)
         /\ UNCHANGED <<st, hist, ans>>
    [] e.ev = "reset" ->
         /\ st' = [st EXCEPT ![e.o].w = st[e.o].init]
         /\ UNCHANGED <<hist, ans>>
    [] OTHER -> /\ Say(FALSE, e, "what", e) /\ UNCHANGED <<st, hist, ans>>
TNext == /\ i <= Len(T)
         /\ Step(T[i])
         /\ (i = Len(T) => PrintT("DONE " \o ToJson([n |-> Len(T)])))
         /\ i' = i + 1
TSpec == TInit /\ [][TNext]_<<vars, i>>
=============================================================================
