-------------------------------- MODULE IndexVar --------------------------------
(* Index variables: a bit pattern that stands for one element of 0 .. n-1.          *)
(* The design: Denotes(enc, n, v) is the set of indices a pattern stands for, Legal  *)
(* its well-formedness constraint.  A pattern is a sequence of bits, lowest first.   *)
(* The obligations are what every encoding (real or designed) has to meet.           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

\* obligations -----------------------------------------------------------------
Meets(n, Pats, Legal(_), Denotes(_)) ==
  /\ \A v \in Pats : Legal(v) <=> Cardinality(Denotes(v)) = 1
  /\ \A v \in Pats : Cardinality(Denotes(v)) <= 1
  /\ UNION { Denotes(v) : v \in Pats } = 0 .. n - 1

\* the two designs ----------------------------------------------------------------
RECURSIVE Val(_)
Val(v) == IF v = <<>> THEN 0 ELSE v[1] + 2 * Val(Tail(v))
RECURSIVE Bits(_)
Bits(m) == IF m < 2 THEN 1 ELSE 1 + Bits(m \div 2)
Width(enc, n) == IF enc = "onehot" THEN n ELSE Bits(n - 1)
Pats(w) == [1 .. w -> {0, 1}]
OneHotLegal(v) == Cardinality({ i \in DOMAIN v : v[i] = 1 }) = 1
OneHotDenotes(v) == IF OneHotLegal(v) THEN { i - 1 : i \in { i \in DOMAIN v : v[i] = 1 } } ELSE {}
BinLegal(n, v) == Val(v) < n
BinDenotes(n, v) == IF Val(v) < n THEN { Val(v) } ELSE {}

\* selecting: Or over i of (matches i /\ x = e[i]) under the constraint has exactly the
\* solution x = e[chosen]; the transition system picks a domain, then a pattern, then
\* every x that the selection formula admits
CONSTANTS N, X
VARIABLES n, enc, v, x, elem, pc
vars == <<n, enc, v, x, elem, pc>>
D == IF enc = "onehot" THEN OneHotDenotes(v) ELSE BinDenotes(n, v)
L == IF enc = "onehot" THEN OneHotLegal(v) ELSE BinLegal(n, v)
Init == /\ n \in 1 .. N /\ enc \in {"onehot", "binary"} /\ v = <<>> /\ x = 0 /\ pc = "pick"
        /\ elem = [i \in 0 .. n - 1 |-> (3 * i + 1) % (X + 1)]
Pick == pc = "pick" /\ \E p \in Pats(Width(enc, n)) : v' = p
        /\ (IF enc = "onehot" THEN OneHotLegal(p) ELSE BinLegal(n, p))
        /\ pc' = "select" /\ UNCHANGED <<n, enc, x, elem>>
Select == pc = "select" /\ \E i \in D, y \in 0 .. X : y = elem[i] /\ x' = y
        /\ pc' = "done" /\ UNCHANGED <<n, enc, v, elem>>
Next == Pick \/ Select
Spec == Init /\ [][Next]_vars
MeetsObligations ==
  pc = "pick" => Meets(n, Pats(Width(enc, n)),
                       LAMBDA p : IF enc = "onehot" THEN OneHotLegal(p) ELSE BinLegal(n, p),
                       LAMBDA p : IF enc = "onehot" THEN OneHotDenotes(p) ELSE BinDenotes(n, p))
Selected == pc = "done" => \E i \in 0 .. n - 1 : D = {i} /\ x = elem[i]
NeverStuck == pc = "select" => D # {}
=============================================================================
