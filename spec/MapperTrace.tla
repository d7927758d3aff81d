------------------------------ MODULE MapperTrace ------------------------------
(* What the mapper did with pairs of an instruction I and an architecture A.        *)
(* An event: [I, A, kinds (of black boxes), pcs (sequences of path restrictions),    *)
(*   rules |-> <<[ib, ob, pc, how]>>       rules the mapper returned (C13)           *)
(*   answers |-> <<[pc, found, how]>>      whether it returned one   (C14)           *)
(*   verifs |-> <<[ib, ob, ok, ce, how]>>  verdicts of its verifier  (C15)           *)
(*   offers |-> <<[ib, ob, refused, how]>> rules offered to the constructor (C15)    *)
(*   copies |-> <<[a, b, how]>> ]          projections before / after writing out    *)
(*                                         and reading back          (C16)           *)
EXTENDS Mapper, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Fail(clause, detail) == PrintT("FAIL " \o ToJson([i |-> i, clause |-> clause, detail |-> detail]))
Must(clause, ok, detail) == IF ok THEN TRUE ELSE Fail(clause, detail)

CeOK(I, A, IT, AT, v) ==
  LET fl == FreeLeaves(A, v.ib)
      iv == BuildIn(I, [p \in { v.ce[1][k].p : k \in 1 .. Len(v.ce[1]) } |->
                          v.ce[1][CHOOSE k \in 1 .. Len(v.ce[1]) : v.ce[1][k].p = p].v])
      fv == [j \in 1 .. Len(fl) |-> v.ce[2][CHOOSE k \in 1 .. Len(v.ce[2]) : v.ce[2][k].p = fl[j].p].v]
  IN \E f \in DOMAIN IT : ~Agree(I, A, v.ob, IT[f][iv], AT[f][ArchIn(I, A, v.ib, fl, iv, fv)])

Judge(e) ==
  LET I == e.I  A == e.A
      FS == BBFuns(e.kinds)
      IT == Tbl(I, FS)
      AT == Tbl(A, FS)
      ex == IF e.answers = <<>> THEN <<>>
            ELSE TLCEval([k \in 1 .. Len(e.pcs) |-> Exists(I, A, IT, AT, e.pcs[k])])
  IN /\ \A k \in 1 .. Len(e.rules) : LET r == e.rules[k] IN
          IF ~WellFormed(I, A, r.ib, r.ob, e.pcs[r.pc]) THEN Fail("shape", <<k, r.how>>)
          ELSE Must("sound", \A b \in Restricted(A, r.ib, e.pcs[r.pc]) : Holds(I, A, IT, AT, b, r.ob), <<k, r.how>>)
     /\ \A k \in 1 .. Len(e.answers) : LET a == e.answers[k] IN
          Must("complete", a.found = ex[a.pc], <<k, a.how, a.found>>)
     /\ \A k \in 1 .. Len(e.verifs) : LET v == e.verifs[k]
                                           h == TLCEval(Holds(I, A, IT, AT, v.ib, v.ob)) IN
          /\ Must("verify", v.ok = h, <<k, v.how, v.ok>>)
          /\ (~v.ok /\ ~h) => Must("counterexample", CeOK(I, A, IT, AT, v), <<k, v.how, v.ce>>)
     /\ \A k \in 1 .. Len(e.copies) : LET c == e.copies[k] IN
          Must("copy", c.a = c.b, <<k, c.how>>)
     /\ \A k \in 1 .. Len(e.offers) : LET o == e.offers[k] IN
          Must("refuse", o.refused = ~Fixed(A, o.ib), <<k, o.how, o.refused>>)
     /\ PrintT("INFO " \o ToJson([i |-> i, ex |-> ex]))

Init == i = 1
Step == i <= Len(Trace) /\ i' = i + 1 /\ Judge(Trace[i])
Finish == i = Len(Trace) + 1 /\ i' = i + 1 /\ PrintT("DONE " \o ToJson([n |-> i - 1]))
Next == Step \/ Finish
Spec == Init /\ [][Next]_i
=============================================================================
