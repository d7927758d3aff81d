------------------------------- MODULE IndexTrace -------------------------------
(* Observations of real index variables:                                            *)
(* [ev "ix", n, enc, w, full,                                                        *)
(*  pats |-> <<[b (bits), ok, m (indices whose test is true), dec (-1: refused),     *)
(*              sel |-> <<values the selection formulas admit>>]>>,                  *)
(*  elem, outside |-> <<was an index outside of the domain refused>>]                *)
(* [ev "formula", t (tree), n, rows |-> <<value at each assignment>>]                *)
EXTENDS IndexVar, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Fail(clause, detail) == PrintT("FAIL " \o ToJson([i |-> i, clause |-> clause, detail |-> detail]))
Must(clause, ok, detail) == IF ok THEN TRUE ELSE Fail(clause, detail)
Range(s) == { s[k] : k \in 1 .. Len(s) }

JudgeIx(e) ==
  LET ps == [b \in { e.pats[k].b : k \in 1 .. Len(e.pats) } |-> e.pats[CHOOSE k \in 1 .. Len(e.pats) : e.pats[k].b = b]]
      Lg(b) == ps[b].ok
      Dn(b) == Range(ps[b].m)
      bad == { k \in 1 .. Len(e.pats) : e.pats[k].dec # (IF e.pats[k].ok /\ Len(e.pats[k].m) = 1 THEN e.pats[k].m[1] ELSE 0 - 1) }
      sel == { k \in 1 .. Len(e.pats) : e.pats[k].ok /\ Len(e.pats[k].m) = 1
                 /\ \E j \in 1 .. Len(e.pats[k].sel) : e.pats[k].sel[j] # << e.elem[e.pats[k].m[1] + 1] >> }
  IN /\ Must("covered", ~e.full \/ DOMAIN ps = [1 .. e.w -> {0, 1}], <<e.n, e.enc>>)
     /\ Must("denotes", Meets(e.n, DOMAIN ps, Lg, Dn), <<e.n, e.enc>>)
     /\ Must("decode", bad = {}, <<e.n, e.enc, IF bad = {} THEN 0 ELSE e.pats[CHOOSE k \in bad : TRUE]>>)
     /\ Must("select", sel = {}, <<e.n, e.enc, IF sel = {} THEN 0 ELSE e.pats[CHOOSE k \in sel : TRUE]>>)
     /\ Must("outside", \A k \in 1 .. Len(e.outside) : e.outside[k], <<e.n, e.enc>>)

RECURSIVE Ev(_, _)
Ev(t, a) == CASE t.o = "v" -> a[t.n]
              [] t.o = "and" -> \A k \in 1 .. Len(t.a) : Ev(t.a[k], a)
              [] t.o = "or" -> \E k \in 1 .. Len(t.a) : Ev(t.a[k], a)
              [] t.o = "imp" -> Ev(t.a[1], a) => Ev(t.a[2], a)
JudgeFormula(e) ==
  Must("formula", \A k \in 1 .. Len(e.rows) :
         LET a == [j \in 1 .. e.n |-> ((k - 1) \div (2 ^ (j - 1))) % 2 = 1] IN e.rows[k] = Ev(e.t, a), <<e.t>>)

JInit == i = 1 /\ n = 1 /\ enc = "binary" /\ v = <<>> /\ x = 0 /\ elem = <<>> /\ pc = "trace"
JStep == /\ i <= Len(Trace) /\ i' = i + 1
         /\ (IF Trace[i].ev = "ix" THEN JudgeIx(Trace[i]) ELSE JudgeFormula(Trace[i]))
         /\ UNCHANGED vars
JFinish == i = Len(Trace) + 1 /\ i' = i + 1 /\ PrintT("DONE " \o ToJson([n |-> i - 1])) /\ UNCHANGED vars
JNext == JStep \/ JFinish
JSpec == JInit /\ [][JNext]_<<i, vars>>
=============================================================================
