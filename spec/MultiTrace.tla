------------------------------- MODULE MultiTrace --------------------------------
(* What the search for rules of several instructions did.  An event:                  *)
(*   [I, A, N, tries |-> <<[res, how, rule]>>]; res "rule" | "none" (no rule) |           *)
(*   "no" (nothing to try) | "unsupported"; rule: [vok, vs, b, ob] (of the right shape or   *)
(*   not), b[i][k] the source of input k of instance i.                                       *)
EXTENDS Multi, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Fail(clause, detail) == PrintT("FAIL " \o ToJson([i |-> i, clause |-> clause, detail |-> detail]))
Must(clause, ok, detail) == IF ok THEN TRUE ELSE Fail(clause, detail)
Bnd(A, b) == [j \in 1 .. Len(b) |-> [k \in Data(A) |-> b[j][k]]]
Judge(e) ==
  LET I == e.I  A == e.A  N == e.N IN
  IF ~Supported(I, A)
  THEN /\ \A k \in 1 .. Len(e.tries) : Must("supported", e.tries[k].res = "unsupported", <<k, e.tries[k].how, e.tries[k].res>>)
       /\ PrintT("INFO " \o ToJson([i |-> i, ans |-> "unsupported"]))
  ELSE
  LET IT == Tbl(I, << [x \in {} |-> 0] >>)[1]
      AT == Tbl(A, << [x \in {} |-> 0] >>)[1]
      ans == TLCEval(Answer(I, A, IT, AT, N))
  IN /\ \A k \in 1 .. Len(e.tries) : LET t == e.tries[k] IN
          /\ Must("answer", t.res = ans, <<k, t.how, t.res, ans>>)
          /\ t.res = "rule" =>
               LET r == t.rule IN
               IF ~(r.vok /\ Len(r.vs) = N /\ LegalBinding(I, A, N, Bnd(A, r.b)) /\ LegalOut(I, A, r.ob))
               THEN Fail("shape", <<k, t.how>>)
               ELSE Must("sound", MHolds(I, A, IT, AT, r.vs, Bnd(A, r.b), r.ob), <<k, t.how>>)
     /\ PrintT("INFO " \o ToJson([i |-> i, ans |-> ans]))
Init == i = 1
Step == i <= Len(Trace) /\ i' = i + 1 /\ Judge(Trace[i])
Finish == i = Len(Trace) + 1 /\ i' = i + 1 /\ PrintT("DONE " \o ToJson([n |-> i - 1]))
Next == Step \/ Finish
Spec == Init /\ [][Next]_i
=============================================================================
