--------------------------------- MODULE Forms ---------------------------------
(* The alternatives (forms) of an instruction type: one per choice of the variants  *)
(* of its active sums; and the candidate bindings between two interfaces.           *)
EXTENDS Mapper

\* the choices that single out an alternative: set of <<path of the sum, variant>>
RECURSIVE TChoices(_, _), ProdChoices(_, _, _)
TChoices(T, p) ==
  CASE IsProd(T) -> ProdChoices(T.ts, p, 1)
    [] IsSum(T) -> UNION { { {<<p, i>>} \cup c : c \in TChoices(T.ts[i], Append(p, i)) } : i \in 1 .. Len(T.ts) }
    [] OTHER -> { {} }
ProdChoices(ts, p, k) ==
  IF k > Len(ts) THEN { {} }
  ELSE { a \cup b : a \in TChoices(ts[k], Append(p, k)), b \in ProdChoices(ts, p, k + 1) }

\* the leaves of the alternative ch
RECURSIVE LeavesOf(_, _, _)
LeavesOf(T, p, ch) ==
  CASE IsProd(T) -> UNION { LeavesOf(T.ts[k], Append(p, k), ch) : k \in 1 .. Len(T.ts) }
    [] IsSum(T) -> LET i == CHOOSE i \in 1 .. Len(T.ts) : <<p, i>> \in ch IN LeavesOf(T.ts[i], Append(p, i), ch)
    [] OTHER -> { [p |-> p, T |-> T] }
RECURSIVE BuildF(_, _, _, _)
BuildF(T, p, ch, src) ==
  CASE IsProd(T) -> FoldLeft(LAMBDA acc, k : acc \o BuildF(T.ts[k], Append(p, k), ch, src), <<>>, [k \in 1 .. Len(T.ts) |-> k])
    [] IsSum(T) -> LET i == CHOOSE i \in 1 .. Len(T.ts) : <<p, i>> \in ch
                   IN <<i>> \o BuildF(T.ts[i], Append(p, i), ch, src)
    [] OTHER -> src[p]
\* values of that shape
Shape(T, ch) ==
  LET ls == SetToSeq(LeavesOf(T, <<>>, ch))
      FV == FreeVals([k \in 1 .. Len(ls) |-> [vs |-> Values(ls[k].T)]], 1)
  IN { BuildF(T, <<>>, ch, [p \in { ls[k].p : k \in 1 .. Len(ls) } |-> fv[CHOOSE k \in 1 .. Len(ls) : ls[k].p = p]]) : fv \in FV }
\* the alternative a value belongs to
RECURSIVE ChoiceOf(_, _, _)
ChoiceOf(T, p, v) ==
  CASE IsProd(T) -> UNION { ChoiceOf(T.ts[k], Append(p, k), FieldVal(T, v, k)) : k \in 1 .. Len(T.ts) }
    [] IsSum(T) -> {<<p, Variant(v)>>} \cup ChoiceOf(T.ts[Variant(v)], Append(p, Variant(v)), Payload(v))
    [] OTHER -> {}
\* alternatives partition the values of a type
Partition(T) ==
  /\ UNION { Shape(T, ch) : ch \in TChoices(T, <<>>) } = Values(T)
  /\ \A a, b \in TChoices(T, <<>>) : a # b => Shape(T, a) \cap Shape(T, b) = {}
  /\ \A v \in Values(T) : ChoiceOf(T, <<>>, v) \in TChoices(T, <<>>) /\ v \in Shape(T, ChoiceOf(T, <<>>, v))

\* candidate bindings: arch leaf -> IR leaf (0: left free)
Bindings(A, I) ==
  { f \in [1 .. Len(A) -> 0 .. Len(I)] :
      /\ \A a \in 1 .. Len(A) : f[a] # 0 => I[f[a]] = A[a]
      /\ \A k \in 1 .. Len(I) : Cardinality({ a \in 1 .. Len(A) : f[a] = k }) = 1 }
=============================================================================
