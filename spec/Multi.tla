---------------------------------- MODULE Multi ----------------------------------
(* Rewrite rules of several instructions: N instances of one architecture, each with a   *)
(* constant of its own for the architecture's only constant input, the other inputs of    *)
(* each connected to inputs of the IR instruction, to outputs of earlier instances, or to  *)
(* nothing; every input of the IR instruction used by exactly one of them, and the outputs   *)
(* of the IR instruction read off the last.  A connection relates whole inputs of the same    *)
(* type.  A black box computes an unknown value: its outputs are inputs (bb) nobody controls.   *)
(*   prog[i] = [v |-> constant, b |-> [k \in Data(A) |-> source]]                                 *)
(*   source  = <<"i", p>> | <<"o", j, q>> | <<"u">>                                                 *)
EXTENDS Mapper

Consts(P) == { k \in 1 .. Len(P.ins) : P.ins[k].c }
IsBB(P, k) == "bb" \in DOMAIN P.ins[k] /\ P.ins[k].bb
BBs(P) == { k \in 1 .. Len(P.ins) : IsBB(P, k) }
Data(P) == (1 .. Len(P.ins)) \ (Consts(P) \cup BBs(P))
TheConst(A) == CHOOSE k \in Consts(A) : TRUE
Supported(I, A) == Consts(I) = {} /\ Cardinality(Consts(A)) = 1

\* all values of the free places f (pairs of instance and input), as functions
RECURSIVE FreeVal(_, _)
FreeVal(A, f) == IF f = {} THEN { [x \in {} |-> <<>>] }
                 ELSE LET x == CHOOSE x \in f : TRUE
                      IN { (x :> v) @@ g : v \in Values(A.ins[x[2]].T), g \in FreeVal(A, f \ {x}) }
Free(A, b) == { <<i, k>> : i \in 1 .. Len(b), k \in BBs(A) }
              \cup { x \in { <<i, k>> : i \in 1 .. Len(b), k \in Data(A) } : b[x[1]][x[2]][1] = "u" }

\* outputs of the first instances, the IR's inputs being iv and the free places fv
RECURSIVE Outs(_, _, _, _, _, _)
Outs(A, AT, vs, b, iv, fv) ==
  IF b = <<>> THEN <<>>
  ELSE LET i == Len(b)
           before == Outs(A, AT, SubSeq(vs, 1, i - 1), SubSeq(b, 1, i - 1), iv, fv)
           val(k) == IF k \in Consts(A) THEN vs[i]
                     ELSE IF k \in BBs(A) THEN fv[<<i, k>>]
                     ELSE CASE b[i][k][1] = "i" -> iv[b[i][k][2]]
                            [] b[i][k][1] = "o" -> before[b[i][k][2]][b[i][k][3]]
                            [] OTHER -> fv[<<i, k>>]
       IN Append(before, AT[[k \in 1 .. Len(A.ins) |-> val(k)]])

Uses(b, p) == Cardinality({ x \in { <<i, k>> : i \in 1 .. Len(b), k \in UNION { DOMAIN b[j] : j \in 1 .. Len(b) } } :
                               x[2] \in DOMAIN b[x[1]] /\ b[x[1]][x[2]] = <<"i", p>> })
UseOnce(I, b) == \A p \in Data(I) : Uses(b, p) = 1

Sources(I, A, i, k) ==
  { <<"u">> } \cup { <<"i", p>> : p \in { p \in Data(I) : I.ins[p].T = A.ins[k].T } }
              \cup { <<"o", j, q>> : j \in 1 .. i - 1, q \in { q \in 1 .. Len(A.outs) : A.outs[q] = A.ins[k].T } }
LegalBinding(I, A, N, b) ==
  /\ Len(b) = N
  /\ \A i \in 1 .. N : DOMAIN b[i] = Data(A) /\ \A k \in Data(A) : b[i][k] \in Sources(I, A, i, k)
  /\ UseOnce(I, b)
LegalOut(I, A, ob) == /\ Len(ob) = Len(I.outs)
                      /\ \A r \in 1 .. Len(ob) : ob[r] \in 1 .. Len(A.outs) /\ A.outs[ob[r]] = I.outs[r]

HoldsFor(FV, A, IT, AT, vs, b, ob) ==
  \A iv \in DOMAIN IT : \A fv \in FV :
    LET o == Outs(A, AT, vs, b, iv, fv)
    IN \A r \in 1 .. Len(ob) : IT[iv][r] = o[Len(b)][ob[r]]
MHolds(I, A, IT, AT, vs, b, ob) == HoldsFor(FreeVal(A, Free(A, b)), A, IT, AT, vs, b, ob)

-------------------------------------------------------------------------------
(* Is there such a rule?                                                            *)
RECURSIVE Funs(_, _, _, _), Bindings(_, _, _)
Funs(I, A, i, D) == IF D = {} THEN { [k \in {} |-> <<"u">>] }
                    ELSE LET k == CHOOSE k \in D : TRUE
                         IN { (k :> s) @@ f : s \in Sources(I, A, i, k), f \in Funs(I, A, i, D \ {k}) }
Bindings(I, A, N) == IF N = 0 THEN { <<>> }
                     ELSE { Append(b, f) : b \in { b \in Bindings(I, A, N - 1) : \A p \in Data(I) : Uses(b, p) <= 1 }, f \in Funs(I, A, N, Data(A)) }
AllBindings(I, A, N) == { b \in Bindings(I, A, N) : UseOnce(I, b) }
AllOut(I, A) == { [r \in 1 .. Len(I.outs) |-> f[r]] :
                    f \in { f \in [1 .. Len(I.outs) -> 1 .. Len(A.outs)] : \A r \in 1 .. Len(I.outs) : A.outs[f[r]] = I.outs[r] } }
RECURSIVE Seqs(_, _)
Seqs(S, n) == IF n = 0 THEN { <<>> } ELSE { Append(s, x) : s \in Seqs(S, n - 1), x \in S }

\* constants that make the architecture compute the same are interchangeable: one of each
Reps(A, AT) ==
  LET c == TheConst(A)
      W == Values(A.ins[c].T)
      v0 == CHOOSE v \in W : TRUE
      rest == { x \in DOMAIN AT : x[c] = v0 }
      beh == [v \in W |-> [x \in rest |-> AT[[x EXCEPT ![c] = v]]]]
  IN { CHOOSE v \in W : beh[v] = f : f \in { beh[v] : v \in W } }

\* what the search has to answer: "no" (nothing to try), "none", "rule"
Answer(I, A, IT, AT, N) ==
  LET B == AllBindings(I, A, N)
      O == AllOut(I, A)
      V == Seqs(Reps(A, AT), N)
  IN IF B = {} \/ O = {} THEN "no"
     ELSE IF \E b \in B : LET FV == TLCEval(FreeVal(A, Free(A, b)))
                          IN \E vs \in V : \E ob \in O : HoldsFor(FV, A, IT, AT, vs, b, ob) THEN "rule"
     ELSE "none"
=============================================================================
