------------------------------ MODULE ClosureTrace ------------------------------
(* Judges recorded requests of real family closures and comparisons of real families.   *)
(* [ev |-> "call", c, f, a, o, ran, gf, ga]  closure c was requested with family f and     *)
(*    arguments a (canonical names); it answered with object o (0: it failed, as its body   *)
(*    did) and its body ran `ran` times, given family gf and arguments ga                    *)
(* [ev |-> "eq", f, g, eq, ne, heq]  families compared: f = g, f # g, equal hashes             *)
(* [ev |-> "pure", f, leaves]  the kinds of bits (f: the kind of the family) that the leaf   *)
(*    types of a class made for a family are made of                                          *)
EXTENDS Closure, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i
Say(b, c, x) == IF b THEN TRUE ELSE PrintT("FAIL " \o ToJson([i |-> i, clause |-> c, detail |-> <<ToString(x)>>]))
TInit == Init /\ i = 1
Req(e) == <<e.c, e.f, e.a>>
Step(e) ==
  CASE e.ev = "begin" -> /\ cache' = Empty /\ UNCHANGED <<stack, hist, next>>
    [] e.ev = "call" ->
         /\ Say(e.o # 0 => AnswerOK(cache, Req(e), e.o, e.ran),
                IF Has(cache, Req(e)) THEN "one result" ELSE "never mixed", <<e, cache>>)
         /\ Say(e.o = 0 => ~Has(cache, Req(e)) /\ e.ran = 1, "failed", e)
         /\ Say(e.ran > 0 => e.gf = e.f /\ e.ga = e.a, "given", e)
         /\ cache' = IF e.o = 0 THEN cache ELSE Put(cache, Req(e), e.o)
         /\ UNCHANGED <<stack, hist, next>>
    [] e.ev = "eq" ->
         /\ Say(e.eq = (e.f = e.g) /\ e.ne = (e.f # e.g), "family equality", e)
         /\ Say(e.f = e.g => e.heq, "family hash", e)
         /\ UNCHANGED vars
    [] e.ev = "pure" ->
         /\ Say(\A k \in DOMAIN e.leaves : e.leaves[k] = e.f, "types of the family", e)
         /\ UNCHANGED vars
    [] OTHER -> Say(FALSE, "what", e) /\ UNCHANGED vars
TNext == /\ i <= Len(T)
         /\ Step(T[i])
         /\ (i = Len(T) => PrintT("DONE " \o ToJson([n |-> Len(T)])))
         /\ i' = i + 1
TSpec == TInit /\ [][TNext]_<<vars, i>>
=============================================================================
