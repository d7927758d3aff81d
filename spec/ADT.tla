---------------------------------- MODULE ADT ----------------------------------
(* Algebraic data types, their values, and what an encoding of them has to be.     *)
(*                                                                                 *)
(* Types (records; the harness writes the same as JSON):                           *)
(*   [k |-> "bv", w |-> n]      a bit vector (signed/unsigned/plain)               *)
(*   [k |-> "bit"]                                                                 *)
(*   [k |-> "enum", codes |-> <<c1,...>>]   c = -1: no explicit code (auto)        *)
(*   [k |-> "prod" | "tuple", ts |-> <<T1,...>>]                                   *)
(*   [k |-> "sum" | "tu", ts |-> <<T1,...>>]                                       *)
(* Values are flat sequences of naturals: the bits of a leaf as one number, the    *)
(* 1-based member index of an enum, the concatenation of the fields of a product,  *)
(* and <<i>> \o payload for variant i of a sum.                                    *)
(* A coding L of T (what an assembler publishes) mirrors the shape of T:           *)
(*   leaf [w]; enum [w, codes]; product [w, lo, hi, sub];                          *)
(*   sum [w, tlo, thi, tags, lo, hi, sub].                                         *)
EXTENDS BV, TLC, SequencesExt

IsLeaf(T) == T.k \in {"bv", "bit"}
IsProd(T) == T.k \in {"prod", "tuple"}
IsSum(T)  == T.k \in {"sum", "tu"}
LeafWidth(T) == IF T.k = "bit" THEN 1 ELSE T.w

RECURSIVE Values(_), ProdValues(_, _)
Values(T) ==
  CASE IsLeaf(T) -> { <<x>> : x \in 0 .. Pow2(LeafWidth(T)) - 1 }
    [] T.k = "enum" -> { <<i>> : i \in 1 .. Len(T.codes) }
    [] IsProd(T) -> ProdValues(T.ts, 1)
    [] IsSum(T) -> UNION { { <<i>> \o v : v \in Values(T.ts[i]) } : i \in 1 .. Len(T.ts) }
ProdValues(ts, i) ==
  IF i > Len(ts) THEN { <<>> }
  ELSE { a \o b : a \in Values(ts[i]), b \in ProdValues(ts, i + 1) }

\* number of elements of the flat value of type T that starts at position p of v
RECURSIVE Span(_, _, _), ProdSpan(_, _, _, _)
Span(T, v, p) ==
  CASE IsLeaf(T) -> 1
    [] T.k = "enum" -> 1
    [] IsProd(T) -> ProdSpan(T.ts, v, p, 1)
    [] IsSum(T) -> 1 + Span(T.ts[v[p]], v, p + 1)
ProdSpan(ts, v, p, i) ==
  IF i > Len(ts) THEN 0
  ELSE LET s == Span(ts[i], v, p) IN s + ProdSpan(ts, v, p + s, i + 1)

\* is v the flat form of a value of T?
RECURSIVE IsVal(_, _, _), IsProdVal(_, _, _, _)
\* returns the position after the value, or 0 if there is none
IsVal(T, v, p) ==
  CASE IsLeaf(T) -> IF p <= Len(v) /\ v[p] \in 0 .. Pow2(LeafWidth(T)) - 1 THEN p + 1 ELSE 0
    [] T.k = "enum" -> IF p <= Len(v) /\ v[p] \in 1 .. Len(T.codes) THEN p + 1 ELSE 0
    [] IsProd(T) -> IsProdVal(T.ts, v, p, 1)
    [] IsSum(T) -> IF p <= Len(v) /\ v[p] \in 1 .. Len(T.ts) THEN IsVal(T.ts[v[p]], v, p + 1) ELSE 0
IsProdVal(ts, v, p, i) ==
  IF i > Len(ts) THEN p
  ELSE LET q == IsVal(ts[i], v, p) IN IF q = 0 THEN 0 ELSE IsProdVal(ts, v, q, i + 1)
IsValue(T, v) == IsVal(T, v, 1) = Len(v) + 1

\* flat value of field / payload i
RECURSIVE FieldPos(_, _, _, _)
FieldPos(ts, v, p, i) == IF i = 1 THEN p
                         ELSE LET q == FieldPos(ts, v, p, i - 1) IN q + Span(ts[i - 1], v, q)
FieldVal(T, v, i) == LET p == FieldPos(T.ts, v, 1, i)
                     IN SubSeq(v, p, p + Span(T.ts[i], v, p) - 1)
Variant(v) == v[1]
Payload(v) == Tail(v)

-------------------------------------------------------------------------------
(* What a coding must satisfy. *)
Disjoint(a, b, c, d) == b <= c \/ d <= a \/ a = b \/ c = d

\* an enum keeps its explicit codes, the automatic ones are distinct from all others
EnumCodesOK(T, L) ==
  /\ Len(L.codes) = Len(T.codes)
  /\ \A i \in 1 .. Len(T.codes) : T.codes[i] # -1 => L.codes[i] = T.codes[i]
  /\ \A i, j \in 1 .. Len(T.codes) : i # j => L.codes[i] # L.codes[j]
  /\ \A i \in 1 .. Len(T.codes) : L.codes[i] \in 0 .. Pow2(L.w) - 1

RECURSIVE LayoutOK(_, _)
LayoutOK(T, L) ==
  CASE IsLeaf(T) -> L.w = LeafWidth(T)
    [] T.k = "enum" -> EnumCodesOK(T, L)
    [] IsProd(T) ->
         /\ Len(L.lo) = Len(T.ts) /\ Len(L.hi) = Len(T.ts) /\ Len(L.sub) = Len(T.ts)
         /\ \A i \in 1 .. Len(T.ts) :
              /\ 0 <= L.lo[i] /\ L.lo[i] <= L.hi[i] /\ L.hi[i] <= L.w
              /\ L.hi[i] - L.lo[i] = L.sub[i].w
              /\ LayoutOK(T.ts[i], L.sub[i])
         /\ \A i, j \in 1 .. Len(T.ts) : i # j => Disjoint(L.lo[i], L.hi[i], L.lo[j], L.hi[j])
    [] IsSum(T) ->
         /\ Len(L.lo) = Len(T.ts) /\ Len(L.hi) = Len(T.ts) /\ Len(L.sub) = Len(T.ts)
         /\ Len(L.tags) = Len(T.ts)
         /\ 0 <= L.tlo /\ L.tlo <= L.thi /\ L.thi <= L.w
         /\ \A i \in 1 .. Len(T.ts) :
              /\ 0 <= L.lo[i] /\ L.lo[i] <= L.hi[i] /\ L.hi[i] <= L.w
              /\ L.hi[i] - L.lo[i] = L.sub[i].w
              /\ Disjoint(L.lo[i], L.hi[i], L.tlo, L.thi)
              /\ L.tags[i] \in 0 .. Pow2(L.thi - L.tlo) - 1
              /\ LayoutOK(T.ts[i], L.sub[i])
         /\ \A i, j \in 1 .. Len(T.ts) : i # j => L.tags[i] # L.tags[j]

-------------------------------------------------------------------------------
(* The encoding a coding stands for.  Unused bits are zero. *)
RECURSIVE EncAt(_, _, _, _), EncProd(_, _, _, _, _)
EncAt(T, L, v, p) ==
  CASE IsLeaf(T) -> v[p]
    [] T.k = "enum" -> L.codes[v[p]]
    [] IsProd(T) -> EncProd(T, L, v, p, 1)
    [] IsSum(T) -> L.tags[v[p]] * Pow2(L.tlo)
                   + EncAt(T.ts[v[p]], L.sub[v[p]], v, p + 1) * Pow2(L.lo[v[p]])
EncProd(T, L, v, p, i) ==
  IF i > Len(T.ts) THEN 0
  ELSE EncAt(T.ts[i], L.sub[i], v, p) * Pow2(L.lo[i])
       + EncProd(T, L, v, p + Span(T.ts[i], v, p), i + 1)
Enc(T, L, v) == EncAt(T, L, v, 1)

(* Decoding: <<TRUE, value>> or <<FALSE, <<>>>> when no value has this encoding.    *)
Bad == <<FALSE, <<>>>>
RECURSIVE Dec(_, _, _), DecProd(_, _, _, _)
Dec(T, L, x) ==
  CASE IsLeaf(T) -> <<TRUE, <<x>>>>
    [] T.k = "enum" ->
         LET S == { i \in 1 .. Len(L.codes) : L.codes[i] = x }
         IN IF S = {} THEN Bad ELSE <<TRUE, <<CHOOSE i \in S : TRUE>>>>
    [] IsProd(T) -> DecProd(T, L, x, 1)
    [] IsSum(T) ->
         LET t == Slice(x, L.tlo, L.thi)
             S == { i \in 1 .. Len(L.tags) : L.tags[i] = t }
         IN IF S = {} THEN Bad
            ELSE LET i == CHOOSE i \in S : TRUE
                     d == Dec(T.ts[i], L.sub[i], Slice(x, L.lo[i], L.hi[i]))
                 IN IF d[1] THEN <<TRUE, <<i>> \o d[2]>> ELSE Bad
DecProd(T, L, x, i) ==
  IF i > Len(T.ts) THEN <<TRUE, <<>>>>
  ELSE LET d == Dec(T.ts[i], L.sub[i], Slice(x, L.lo[i], L.hi[i]))
           r == DecProd(T, L, x, i + 1)
       IN IF d[1] /\ r[1] THEN <<TRUE, d[2] \o r[2]>> ELSE Bad

Valid(T, L, x) == Dec(T, L, x)[1]

-------------------------------------------------------------------------------
(* A canonical coding, used to check this module on its own (see ADTLaws): fields  *)
(* from bit 0 upwards, tags 0,1,2,... at the bottom, codes: explicit or lowest free *)
RECURSIVE BitLen(_)
BitLen(n) == IF n = 0 THEN 0 ELSE 1 + BitLen(n \div 2)
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
RECURSIVE AutoCodes(_, _, _)
AutoCodes(codes, i, used) ==
  IF i > Len(codes) THEN <<>>
  ELSE IF codes[i] # -1 THEN <<codes[i]>> \o AutoCodes(codes, i + 1, used)
  ELSE LET c == MinOf(0 .. (Cardinality(used) + 1) \ used)
       IN <<c>> \o AutoCodes(codes, i + 1, used \cup {c})
CanonCodes(codes) == AutoCodes(codes, 1, {codes[i] : i \in 1 .. Len(codes)} \ {-1})

RECURSIVE Canon(_), SumWidths(_, _)
SumWidths(sub, i) == IF i = 0 THEN 0 ELSE sub[i].w + SumWidths(sub, i - 1)
Canon(T) ==
  CASE IsLeaf(T) -> [w |-> LeafWidth(T)]
    [] T.k = "enum" ->
         LET c == CanonCodes(T.codes)
         IN [w |-> BitLen(MaxOf({c[i] : i \in 1 .. Len(c)})), codes |-> c]
    [] IsProd(T) ->
         LET sub == [i \in 1 .. Len(T.ts) |-> Canon(T.ts[i])]
         IN [w |-> SumWidths(sub, Len(sub)),
             lo |-> [i \in 1 .. Len(sub) |-> SumWidths(sub, i - 1)],
             hi |-> [i \in 1 .. Len(sub) |-> SumWidths(sub, i)], sub |-> sub]
    [] IsSum(T) ->
         LET sub == [i \in 1 .. Len(T.ts) |-> Canon(T.ts[i])]
             tw == BitLen(Len(T.ts) - 1)
         IN [w |-> tw + MaxOf({sub[i].w : i \in 1 .. Len(sub)}),
             tlo |-> 0, thi |-> tw, tags |-> [i \in 1 .. Len(sub) |-> i - 1],
             lo |-> [i \in 1 .. Len(sub) |-> tw], hi |-> [i \in 1 .. Len(sub) |-> tw + sub[i].w],
             sub |-> sub]
=============================================================================
