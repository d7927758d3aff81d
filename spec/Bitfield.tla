-------------------------------- MODULE Bitfield --------------------------------
(* Bit-field words.  Types:                                                         *)
(*  [k "bit"|"bv", w, off]  [k "enum", codes, off]  [k "prod", ts, off]              *)
(*  [k "sum", ts, tags (<<>>: none declared), off]                                   *)
(* values: leaf <<x>>, enum <<member>>, product: concatenation, sum: <<i>> \o payload*)
(* off moves the word of a type up by that many bits from the place it gets.        *)
(* A word is the set of positions of its 1 bits (no bound on the width).            *)
EXTENDS Integers, Sequences, FiniteSets, TLC

RECURSIVE Clog(_)
Clog(n) == IF n <= 1 THEN 0 ELSE 1 + Clog((n + 1) \div 2)     \* smallest b with 2^b >= n
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
Rg(s) == { s[k] : k \in 1 .. Len(s) }
BitsOf(n) == { k \in 0 .. 30 : (n \div 2 ^ k) % 2 = 1 }

TagSize(T) == IF T.tags = <<>> THEN Clog(Len(T.ts)) ELSE Clog(MaxOf(Rg(T.tags)) + 1)
RECURSIVE Size(_), SumSizes(_, _)
Size(T) == CASE T.k = "bit" -> 1
             [] T.k = "bv" -> T.w
             [] T.k = "enum" -> Clog(MaxOf(Rg(T.codes)) + 1)
             [] T.k = "prod" -> SumSizes(T.ts, 1)
             [] T.k = "sum" -> TagSize(T) + MaxOf({ Size(T.ts[i]) : i \in 1 .. Len(T.ts) })
SumSizes(ts, i) == IF i > Len(ts) THEN 0 ELSE Size(ts[i]) + SumSizes(ts, i + 1)

RECURSIVE Span(_, _, _), PSpan(_, _, _, _)
Span(T, v, p) == CASE T.k \in {"bit", "bv", "enum"} -> 1
                   [] T.k = "prod" -> PSpan(T.ts, v, p, 1)
                   [] T.k = "sum" -> 1 + Span(T.ts[v[p]], v, p + 1)
PSpan(ts, v, p, i) == IF i > Len(ts) THEN 0
                      ELSE LET s == Span(ts[i], v, p) IN s + PSpan(ts, v, p + s, i + 1)

\* the fields of the word of value v at place lo: set of [lo, w, x, path]
\* tg: the tag of each variant of a sum without declared tags, by path of the sum type
RECURSIVE Fields(_, _, _, _, _, _, _), ProdFields(_, _, _, _, _, _, _, _)
Fields(T, v, p, lo, rev, path, tg) ==
  LET at == lo + T.off IN
  CASE T.k \in {"bit", "bv"} -> { [lo |-> at, w |-> Size(T), x |-> BitsOf(v[p]), path |-> path] }
    [] T.k = "enum" -> { [lo |-> at, w |-> Size(T), x |-> BitsOf(T.codes[v[p]]), path |-> path] }
    [] T.k = "prod" -> ProdFields(T, v, p, at, rev, path, tg, 1)
    [] T.k = "sum" ->
         LET t == IF T.tags # <<>> THEN T.tags[v[p]]
                  ELSE LET e == CHOOSE e \in tg : e.path = path IN e.tags[v[p]]
             n == TagSize(T)
             plo == IF rev THEN at ELSE at + n
             tlo == IF rev THEN at + Size(T) - n ELSE at
         IN { [lo |-> tlo, w |-> n, x |-> BitsOf(t), path |-> Append(path, 0)] }
            \cup Fields(T.ts[v[p]], v, p + 1, plo, rev, Append(path, v[p]), tg)
ProdFields(T, v, p, lo, rev, path, tg, i) ==
  IF i > Len(T.ts) THEN {}
  ELSE LET before == SumSizes([j \in 1 .. i - 1 |-> T.ts[j]], 1)
           flo == IF rev THEN lo + Size(T) - before - Size(T.ts[i]) ELSE lo + before
       IN Fields(T.ts[i], v, p, flo, rev, Append(path, i), tg)
          \cup ProdFields(T, v, p + Span(T.ts[i], v, p), lo, rev, path, tg, i + 1)

Word(F) == UNION { { f.lo + b : b \in f.x } : f \in F }
\* every operand has bits of its own and fits into them
Separate(F) == /\ \A f, g \in F : f # g => f.lo + f.w <= g.lo \/ g.lo + g.w <= f.lo
               /\ \A f \in F : \A b \in f.x : b < f.w
ReadBack(F, word) == \A f \in F : { b - f.lo : b \in { b \in word : f.lo <= b /\ b < f.lo + f.w } } = f.x

-------------------------------------------------------------------------------
(* The instruction words of a family: types grow, then a word is written field by   *)
(* field in any order; what is written never changes (Separate) and is read back.   *)
L0 == { [k |-> "bit", off |-> 0], [k |-> "bv", w |-> 2, off |-> 0], [k |-> "enum", codes |-> <<0, 1, 4>>, off |-> 0] }
Pr(ts) == [k |-> "prod", ts |-> ts, off |-> 0]
Su(ts, tg) == [k |-> "sum", ts |-> ts, tags |-> tg, off |-> 0]
L1 == L0 \cup { Pr(<<a, b>>) : a \in L0, b \in L0 } \cup { Su(<<a, b>>, t) : a \in L0, b \in L0, t \in { <<0, 1>>, <<5, 2>> } }
RECURSIVE Vals(_), PVals(_, _)
Vals(T) == CASE T.k = "bit" -> { <<x>> : x \in 0 .. 1 }
             [] T.k = "bv" -> { <<x>> : x \in 0 .. 2 ^ T.w - 1 }
             [] T.k = "enum" -> { <<x>> : x \in 1 .. Len(T.codes) }
             [] T.k = "prod" -> PVals(T.ts, 1)
             [] T.k = "sum" -> UNION { { <<i>> \o v : v \in Vals(T.ts[i]) } : i \in 1 .. Len(T.ts) }
PVals(ts, i) == IF i > Len(ts) THEN { <<>> } ELSE { a \o b : a \in Vals(ts[i]), b \in PVals(ts, i + 1) }
VARIABLES T, val, rev, todo, word
vars == <<T, val, rev, todo, word>>
Init == /\ T \in L1 \cup { Pr(<<a, b>>) : a \in L1, b \in L0 } \cup { Su(<<a, b>>, <<3, 0>>) : a \in L1, b \in L0 }
        /\ rev \in BOOLEAN /\ val \in Vals(T) /\ word = {} /\ todo = Fields(T, val, 1, 0, rev, <<>>, {})
Write == \E f \in todo : todo' = todo \ {f} /\ word' = word \cup { f.lo + b : b \in f.x } /\ UNCHANGED <<T, val, rev>>
Next == Write
Spec == Init /\ [][Next]_vars
F0 == Fields(T, val, 1, 0, rev, <<>>, {})
Disjoint == Separate(F0)
Within == \A f \in F0 : f.lo + f.w <= Size(T)
Written == ReadBack(F0 \ todo, word)
=============================================================================
