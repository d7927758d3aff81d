------------------------------ MODULE FloatTrace ------------------------------
(* Judges recorded results of the generated floating-point operations.              *)
(* [ev |-> "op", F, op, mode, rows]   rows of <<operands..., dynamic, fixed>>: what the      *)
(*    operation taking the mode with its operands gave, and the one built for the mode       *)
(*    (-1: no answer, -2: not asked)                                                          *)
(* [ev |-> "ops", have]               the operations a library offers                        *)
(* [ev |-> "mode", rows]              rows of <<code, name of the mode of the code,          *)
(*    code of that mode>>                                                                     *)
EXTENDS Float, TLC, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i

Fail(c, x) == PrintT("FAIL " \o ToJson([i |-> i, clause |-> c, detail |-> ToString(x)]))
Say(b, c, x) == IF b THEN TRUE ELSE Fail(c, x)

N(r) == Len(r) - 2
Ins(r) == SubSeq(r, 1, N(r))

(* the ways one answer may be wrong *)
Verdict(e, r, out) ==
  LET ins == Ins(r) IN
  IF out = -2 \/ ~InDomain(e.F, ins) \/ Right(e.F, e.op, e.mode, ins, out) THEN "ok"
  ELSE IF out >= 0 /\ e.mode = "RMM" /\ Right(e.F, e.op, "AWAY", ins, out) THEN "rmm-away"
  ELSE IF e.op = "Abs" /\ out = SignBit(e.F) /\ ins[1] = SignBit(e.F) THEN "abs-of-minus-zero"
  ELSE "value"

(* no number is the result: which NaN (or infinity, in a format without NaNs) is left open *)
NoNumber(e, ins) == \/ ~InDomain(e.F, ins)
                    \/ e.op \in Arith /\ Exact(e.F, e.op, e.mode, ins).c = "nan"
                    \/ e.op \in {"Min", "Max"} /\ \A k \in 1..Len(ins) : IsNaN(e.F, ins[k])

Clauses == {"rmm-away", "abs-of-minus-zero", "value"}
Step(e) ==
  CASE e.ev = "op" ->
         LET v == [k \in 1..Len(e.rows) |-> <<Verdict(e, e.rows[k], e.rows[k][N(e.rows[k]) + 1]), Verdict(e, e.rows[k], e.rows[k][N(e.rows[k]) + 2])>>]
             d == {k \in 1..Len(e.rows) : LET r == e.rows[k] IN r[N(r) + 1] # -2 /\ r[N(r) + 2] # -2 /\ r[N(r) + 1] # r[N(r) + 2] /\ ~NoNumber(e, Ins(r))}
         IN /\ \A c \in Clauses :
                 LET bad == {k \in 1..Len(e.rows) : v[k][1] = c \/ v[k][2] = c}
                 IN IF bad = {} THEN TRUE
                    ELSE LET k == CHOOSE k \in bad : TRUE
                         IN Fail(c, <<e.F, e.op, e.mode, e.rows[k], v[k],
                                      IF InDomain(e.F, Ins(e.rows[k])) THEN Answers(e.F, e.op, e.mode, Ins(e.rows[k])) ELSE {}>>)
            /\ IF d = {} THEN TRUE ELSE Fail("fixed-differs", <<e.F, e.op, e.mode, e.rows[CHOOSE k \in d : TRUE]>>)
    [] e.ev = "ops" -> Say((Arith \cup Preds \cup {"Min", "Max"}) \subseteq {e.have[k] : k \in 1..Len(e.have)}, "missing", e)
    [] e.ev = "mode" -> Say(\A k \in 1..Len(e.rows) : LET r == e.rows[k] IN
                              (r.code < 5 => r.name = <<"RNE", "RTZ", "RDN", "RUP", "RMM">>[r.code + 1] /\ r.back = r.code), "mode-codes", e)
    [] OTHER -> Say(FALSE, "what", e)
Init == i = 1
Next == /\ i <= Len(T)
        /\ Step(T[i])
        /\ (i = Len(T) => PrintT("DONE " \o ToJson([n |-> Len(T)])))
        /\ i' = i + 1
Spec == Init /\ [][Next]_i
=============================================================================
