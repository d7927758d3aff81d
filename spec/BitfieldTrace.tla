----------------------------- MODULE BitfieldTrace ------------------------------
(* [ev "words", T, size (of T), tagsize, tg (observed tags of undeclared sums),      *)
(*  ws |-> <<[v, rev, word (positions of 1 bits; <<-1>>: refused)]>>]                *)
(* [ev "declare", ok (should it be accepted), accepted]                              *)
EXTENDS Bitfield, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Fail(clause, detail) == PrintT("FAIL " \o ToJson([i |-> i, clause |-> clause, detail |-> detail]))
Must(clause, ok, detail) == IF ok THEN TRUE ELSE Fail(clause, detail)
RECURSIVE SumsOf(_, _)
SumsOf(t, path) == CASE t.k = "prod" -> UNION { SumsOf(t.ts[k], Append(path, k)) : k \in 1 .. Len(t.ts) }
                     [] t.k = "sum" -> (IF t.tags = <<>> THEN { [path |-> path, T |-> t] } ELSE {})
                                       \cup UNION { SumsOf(t.ts[k], Append(path, k)) : k \in 1 .. Len(t.ts) }
                     [] OTHER -> {}
JudgeWords(e) ==
  LET tg == Rg(e.tg) IN
  /\ Must("size", e.size = Size(e.T), <<e.size, Size(e.T)>>)
  /\ Must("tags", \A s \in SumsOf(e.T, <<>>) : \E g \in tg :
             g.path = s.path /\ Len(g.tags) = Len(s.T.ts) /\ Cardinality(Rg(g.tags)) = Len(s.T.ts)
             /\ \A t \in Rg(g.tags) : t < 2 ^ TagSize(s.T), <<e.tg>>)
  /\ \A k \in 1 .. Len(e.ws) :
       LET w == e.ws[k]  F == Fields(e.T, w.v, 1, 0, w.rev, <<>>, tg)
       IN Separate(F) => Must("word", Rg(w.word) = Word(F), <<w, Word(F)>>)
  /\ PrintT("INFO " \o ToJson([i |-> i, n |-> Cardinality({ k \in 1 .. Len(e.ws) :
                     Separate(Fields(e.T, e.ws[k].v, 1, 0, e.ws[k].rev, <<>>, tg)) })]))
JInit == i = 1 /\ T = "-" /\ val = <<>> /\ rev = FALSE /\ todo = {} /\ word = {}
JStep == /\ i <= Len(Trace) /\ i' = i + 1 /\ UNCHANGED vars
         /\ (IF Trace[i].ev = "words" THEN JudgeWords(Trace[i])
             ELSE Must("declare", Trace[i].ok = Trace[i].accepted, <<Trace[i].how>>))
JFinish == i = Len(Trace) + 1 /\ i' = i + 1 /\ PrintT("DONE " \o ToJson([n |-> i - 1])) /\ UNCHANGED vars
JNext == JStep \/ JFinish
JSpec == JInit /\ [][JNext]_<<i, vars>>
=============================================================================
