-------------------------------- MODULE ADTGen --------------------------------
(* All instruction types over a pool of leaves and one or two levels of           *)
(* constructors.  Checks the laws every coding-based encoding has (on the          *)
(* canonical coding) and prints each type as a case for the real assemblers.       *)
EXTENDS ADT, Json
CONSTANTS Depth2, MaxArity

Bit == [k |-> "bit"]
Bvt(n) == [k |-> "bv", w |-> n]
En(c) == [k |-> "enum", codes |-> c]
\* dense, auto, range from 1, full range, one-hot, one-hot with 0, two ranges, sparse,
\* single non-zero, mixed auto
Enums == { En(<<0,1,2>>), En(<<-1,-1,-1,-1>>), En(<<1,2,3>>), En(<<0,1>>), En(<<1,2,4>>), En(<<0,1,2,4>>),
           En(<<1,2,4,8>>), En(<<0,1,2,5,6,7>>), En(<<1,2,5>>), En(<<3,0>>), En(<<1>>), En(<<3>>), En(<<2,-1,0>>),
           En(<<1,2,3,5,6>>), En(<<0,1,2,3,4,6>>), En(<<2,3,4>>), En(<<5,6,7>>), En(<<0,2,4,6>>), En(<<0, 1, 3, 4, 7>>),
           En(<<-1,5,-1,1>>), En(<<4,2,1>>), En(<<1,2,3,4,8,9,10,11,12>>) }
SmallEnums == { En(<<0,1,2>>), En(<<1,2,4>>), En(<<3>>) }
Leaves == { Bit, Bvt(1), Bvt(2), Bvt(3) } \cup SmallEnums
Seqs(S, n) == UNION { [1 .. m -> S] : m \in 1 .. n }
Injective(s) == \A i, j \in DOMAIN s : i # j => s[i] # s[j]
Prods(S) == { [k |-> kk, ts |-> s] : kk \in {"prod", "tuple"}, s \in Seqs(S, 2) }
Sums(S, n) == { [k |-> "sum", ts |-> s] : s \in { t \in Seqs(S, n) : Injective(t) } }
TUs(S, n) == { [k |-> "tu", ts |-> s] : s \in Seqs(S, n) }
Level1 == Leaves \cup Enums \cup Prods(Leaves) \cup Sums(Leaves, 2) \cup TUs({Bit, Bvt(2), En(<<0,1,2>>)}, MaxArity)
\* composites used inside composites
Inner == { [k |-> "prod", ts |-> <<Bvt(2), Bit>>],
           [k |-> "tuple", ts |-> <<Bit, En(<<1,2,4>>)>>],
           [k |-> "sum", ts |-> <<Bvt(1), Bvt(2)>>],
           [k |-> "tu", ts |-> <<Bit, Bvt(2), Bit>>],
           [k |-> "tu", ts |-> <<Bit, Bit, Bvt(1), Bvt(1), Bit>>],
           En(<<0,1,2,5,6,7>>) }
Level2 == Prods(Inner) \cup Sums(Inner, 2) \cup TUs(Inner, 2)
          \cup { [k |-> kk, ts |-> <<a, b, c>>] : kk \in {"prod", "tu"}, a \in Inner, b \in {Bit, Bvt(2)}, c \in Inner }
Types == Level1 \cup (IF Depth2 THEN Level2 ELSE {})

VARIABLES T, L, done
Init == T \in Types /\ L = Canon(T) /\ done = FALSE
Next == done = FALSE /\ done' = TRUE /\ UNCHANGED <<T, L>> /\ PrintT("CASE " \o ToJson(T))
Spec == Init /\ [][Next]_<<T, L, done>>

(* Laws of the specification itself. *)
Laws ==
  LET V == Values(T) IN
  /\ LayoutOK(T, L)
  /\ \A v \in V : /\ IsValue(T, v)
                  /\ Enc(T, L, v) \in 0 .. Pow2(L.w) - 1
                  /\ Dec(T, L, Enc(T, L, v)) = <<TRUE, v>>
  /\ Cardinality({Enc(T, L, v) : v \in V}) = Cardinality(V)
  /\ L.w <= 10 => { Dec(T, L, x)[2] : x \in {y \in 0 .. Pow2(L.w) - 1 : Valid(T, L, y)} } = V
=============================================================================
