-------------------------------- MODULE Float --------------------------------
(* Floating-point formats and the correctly rounded operations on them, from
   the definition: every finite number is an integer significand times a power of
   two, the exact result of an operation is computed (or bounded from below by an
   integer multiple of a power of two with a mark saying that something positive
   below one unit was left out), and only then rounded.

   A format is [e, m, ieee]: e exponent bits, m fraction bits.  A number is the
   natural number of its 1+e+m bits.  Unpacked:
     [c |-> "nan"] , [c |-> "inf", s], [c |-> "zero", s],
     [c |-> "num", s, g, x]   the number (-1)^s * g * 2^x, g of exactly m+1 bits. *)
EXTENDS Naturals, Integers, Sequences

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

RECURSIVE BitLen(_)
BitLen(n) == IF n = 0 THEN 0 ELSE 1 + BitLen(n \div 2)

Bias(F) == 2^(F.e - 1) - 1
P(F) == F.m + 1
EMin(F) == 1 - Bias(F) - F.m          \* the weight of the last place of the smallest numbers
TopExp(F) == 2^F.e - 1                \* the exponent field of infinities and NaNs
SignBit(F) == 2^(F.e + F.m)

Sgn(F, b) == b \div SignBit(F)
ExpF(F, b) == (b % SignBit(F)) \div 2^F.m
Frac(F, b) == b % 2^F.m

IsNaN(F, b) == ExpF(F, b) = TopExp(F) /\ Frac(F, b) # 0
IsInf(F, b) == ExpF(F, b) = TopExp(F) /\ Frac(F, b) = 0
IsZero(F, b) == ExpF(F, b) = 0 /\ Frac(F, b) = 0
IsSub(F, b) == ExpF(F, b) = 0 /\ Frac(F, b) # 0
IsNormal(F, b) == ExpF(F, b) # 0 /\ ExpF(F, b) # TopExp(F)

Unpack(F, b) ==
  CASE IsNaN(F, b) -> [c |-> "nan", s |-> 0, g |-> 0, x |-> 0]
    [] IsInf(F, b) -> [c |-> "inf", s |-> Sgn(F, b), g |-> 0, x |-> 0]
    [] IsZero(F, b) -> [c |-> "zero", s |-> Sgn(F, b), g |-> 0, x |-> 0]
    [] IsNormal(F, b) -> [c |-> "num", s |-> Sgn(F, b), g |-> 2^F.m + Frac(F, b), x |-> ExpF(F, b) - 1 + EMin(F)]
    [] OTHER -> LET k == P(F) - BitLen(Frac(F, b))
                IN [c |-> "num", s |-> Sgn(F, b), g |-> Frac(F, b) * 2^k, x |-> EMin(F) - k]

Zero(F, s) == s * SignBit(F)
Inf(F, s) == s * SignBit(F) + TopExp(F) * 2^F.m
MaxFin(F, s) == Inf(F, s) - 1
MinNorm(F, s) == s * SignBit(F) + 2^F.m
MinSub(F, s) == s * SignBit(F) + 1
NaN(F) == Inf(F, 0) + 1                \* the representative of the NaNs

(* does a magnitude between two neighbours round to the upper one?  half: -1, 0, 1 as
   what is left out is below, exactly, above the middle;  odd: the lower one is odd *)
Up(mode, s, half, odd) ==
  CASE mode = "RNE" -> half > 0 \/ (half = 0 /\ odd)
    [] mode = "RMM" -> half >= 0
    [] mode = "RTZ" -> FALSE
    [] mode = "RDN" -> s = 1
    [] mode = "RUP" -> s = 0
    [] mode = "AWAY" -> TRUE

(* what a magnitude beyond the largest number becomes *)
Over(F, mode, s) == IF Up(mode, s, 1, TRUE) THEN Inf(F, s) ELSE MaxFin(F, s)

(* The rounding of (-1)^s * (q + r) * 2^x where 0 <= r < 1 and r > 0 iff sticky.
   q > 0, and has at least m+3 bits if sticky. *)
Round(F, mode, s, q, x, sticky) ==
  LET L == BitLen(q)
      t == Max2(L + x - P(F), EMin(F))           \* weight of the last place of the result
      sh == t - x
      cut == sh > L + 1                          \* far below half of the smallest number
      lo == IF sh <= 0 THEN q * 2^(0 - sh) ELSE IF cut THEN 0 ELSE q \div 2^sh
      rem == IF sh <= 0 \/ cut THEN 0 ELSE q % 2^sh
      exact == ~sticky /\ rem = 0 /\ ~cut
      half == IF cut \/ sh <= 0 THEN -1
              ELSE IF 2 * rem > 2^sh THEN 1
              ELSE IF 2 * rem < 2^sh THEN -1
              ELSE IF sticky THEN 1 ELSE 0
      n == IF exact THEN lo ELSE IF Up(mode, s, half, lo % 2 = 1) THEN lo + 1 ELSE lo
      k == t - EMin(F)                           \* n * 2^k units of the smallest number
      n2 == IF n = 2^P(F) THEN 2^F.m ELSE n
      k2 == IF n = 2^P(F) THEN k + 1 ELSE k
  IN IF n2 = 0 THEN Zero(F, s)
     ELSE IF k2 + 1 >= TopExp(F) THEN Over(F, mode, s)
     ELSE IF n2 < 2^F.m THEN s * SignBit(F) + n2 \* only where k2 = 0
     ELSE s * SignBit(F) + (k2 + 1) * 2^F.m + (n2 - 2^F.m)

(* Is the exact value below the smallest normal number, or does it round there?  (Then a
   format without subnormal numbers may give zero or the smallest normal number.) *)
Tiny(F, q, x) == BitLen(q) + x < P(F) + EMin(F)

(* exact results are [c |-> "nan"|"inf"|"zero"|"num", s, q, x, st] *)
ExN == [c |-> "nan", s |-> 0, q |-> 0, x |-> 0, st |-> FALSE]
ExI(s) == [c |-> "inf", s |-> s, q |-> 0, x |-> 0, st |-> FALSE]
ExZ(s) == [c |-> "zero", s |-> s, q |-> 0, x |-> 0, st |-> FALSE]
Ex(s, q, x, st) == [c |-> "num", s |-> s, q |-> q, x |-> x, st |-> st]
ExU(u) == IF u.c = "num" THEN Ex(u.s, u.g, u.x, FALSE) ELSE [c |-> u.c, s |-> u.s, q |-> 0, x |-> 0, st |-> FALSE]

Xor(a, b) == (a + b) % 2

(* the sum of two exact numbers; D is how far the one of larger weight is moved up *)
SumNum(a, b, D, mode) ==
  LET h == IF a.x >= b.x THEN a ELSE b
      l == IF a.x >= b.x THEN b ELSE a
      d == Min2(h.x - l.x, D)
      over == h.x - l.x - d                      \* places of l that stick out
      big == BitLen(l.q) + 1
      lf == IF over = 0 THEN l.q ELSE IF over > big THEN 0 ELSE l.q \div 2^over
      inex == over > 0 /\ (over > big \/ l.q % 2^over # 0)
      hq == h.q * 2^d
      x == h.x - d
  IN IF h.s = l.s THEN Ex(h.s, hq + lf, x, inex)
     ELSE LET lc == IF inex THEN lf + 1 ELSE lf
          IN IF hq = lf /\ ~inex THEN ExZ(IF mode = "RDN" THEN 1 ELSE 0)
             ELSE IF hq >= lc /\ (hq > lc \/ inex) THEN Ex(h.s, hq - lc, x, inex)
             ELSE Ex(l.s, lf - hq, x, inex)

(* the exponent difference is bounded by moving the larger number only so far that the
   result keeps enough places *)
ExSum(F, a, b, mode) ==
  CASE a.c = "nan" \/ b.c = "nan" -> ExN
    [] a.c = "inf" /\ b.c = "inf" -> IF a.s = b.s THEN a ELSE ExN
    [] a.c = "inf" -> a
    [] b.c = "inf" -> b
    [] a.c = "zero" /\ b.c = "zero" -> IF a.s = b.s THEN a ELSE ExZ(IF mode = "RDN" THEN 1 ELSE 0)
    [] a.c = "zero" -> b
    [] b.c = "zero" -> a
    [] OTHER -> SumNum(a, b, (IF a.x >= b.x THEN BitLen(b.q) ELSE BitLen(a.q)) + 3, mode)

ExMul(a, b) ==
  CASE a.c = "nan" \/ b.c = "nan" -> ExN
    [] (a.c = "inf" /\ b.c = "zero") \/ (a.c = "zero" /\ b.c = "inf") -> ExN
    [] a.c = "inf" \/ b.c = "inf" -> ExI(Xor(a.s, b.s))
    [] a.c = "zero" \/ b.c = "zero" -> ExZ(Xor(a.s, b.s))
    [] OTHER -> Ex(Xor(a.s, b.s), a.q * b.q, a.x + b.x, FALSE)

ExDiv(F, a, b) ==
  CASE a.c = "nan" \/ b.c = "nan" -> ExN
    [] a.c = "inf" /\ b.c = "inf" -> ExN
    [] a.c = "zero" /\ b.c = "zero" -> ExN
    [] a.c = "inf" \/ b.c = "zero" -> ExI(Xor(a.s, b.s))
    [] a.c = "zero" \/ b.c = "inf" -> ExZ(Xor(a.s, b.s))
    [] OTHER -> LET k == P(F) + 3
                IN Ex(Xor(a.s, b.s), (a.q * 2^k) \div b.q, a.x - b.x - k, (a.q * 2^k) % b.q # 0)

(* the integer square root: the largest r with r^2 <= n *)
RECURSIVE ISqrt(_, _, _)
ISqrt(n, lo, hi) == IF hi - lo <= 1 THEN lo
                    ELSE LET c == (lo + hi) \div 2 IN IF c * c <= n THEN ISqrt(n, c, hi) ELSE ISqrt(n, lo, c)

ExSqrt(F, a) ==
  CASE a.c = "nan" -> ExN
    [] a.c = "zero" -> a
    [] a.s = 1 -> ExN
    [] a.c = "inf" -> a
    [] OTHER -> LET k == P(F) + 4 + ((a.x + P(F) + 4) % 2)        \* a.x - k is even
                    n == a.q * 2^k
                    r == ISqrt(n, 0, 2^((BitLen(n) + 1) \div 2))
                IN Ex(0, r, (a.x - k) \div 2, r * r # n)

(* a * 2^d modulo b *)
RECURSIVE ModPow(_, _, _)
ModPow(a, d, b) == IF d = 0 THEN a % b ELSE ModPow((2 * (a % b)) % b, d - 1, b)

(* the remainder x - y*n where n is the integer nearest to x/y, the even one of two *)
ExRem(F, a, b) ==
  CASE a.c = "nan" \/ b.c = "nan" \/ a.c = "inf" \/ b.c = "zero" -> ExN
    [] a.c = "zero" \/ b.c = "inf" -> a
    [] a.x < b.x - P(F) - 1 -> a                                    \* less than half of b
    [] OTHER ->
        LET w == Min2(a.x, b.x)
            bq == b.q * 2^(b.x - w)
            r2 == IF a.x > w THEN ModPow(a.q, a.x - w, 2 * bq) ELSE a.q % (2 * bq)      \* modulo 2b
            odd == r2 >= bq
            r == IF odd THEN r2 - bq ELSE r2
            up == 2 * r > bq \/ (2 * r = bq /\ odd)
        IN IF r = 0 THEN ExZ(a.s)
           ELSE IF up THEN Ex(1 - a.s, bq - r, w, FALSE) ELSE Ex(a.s, r, w, FALSE)

(* the nearest whole number in the direction of the mode *)
Integral(F, mode, a) ==
  IF a.c # "num" \/ a.x >= 0 THEN a
  ELSE LET sh == 0 - a.x
           cut == sh > BitLen(a.q) + 1
           lo == IF cut THEN 0 ELSE a.q \div 2^sh
           rem == IF cut THEN 1 ELSE a.q % 2^sh
           half == IF cut \/ 2 * rem < 2^sh THEN -1 ELSE IF 2 * rem > 2^sh THEN 1 ELSE 0
           n == IF rem = 0 THEN lo ELSE IF Up(mode, a.s, half, lo % 2 = 1) THEN lo + 1 ELSE lo
       IN IF n = 0 THEN ExZ(a.s) ELSE Ex(a.s, n, 0, FALSE)

Finish(F, mode, r) ==
  CASE r.c = "nan" -> NaN(F)
    [] r.c = "inf" -> Inf(F, r.s)
    [] r.c = "zero" -> Zero(F, r.s)
    [] OTHER -> Round(F, mode, r.s, r.q, r.x, r.st)

Flip(r) == [r EXCEPT !.s = 1 - r.s]

(* the exact result of an arithmetic operation *)
Exact(F, op, mode, ins) ==
  LET u == [i \in 1..Len(ins) |-> ExU(Unpack(F, ins[i]))]
  IN CASE op = "Add" -> ExSum(F, u[1], u[2], mode)
       [] op = "Sub" -> ExSum(F, u[1], IF u[2].c = "nan" THEN u[2] ELSE Flip(u[2]), mode)
       [] op = "Mul" -> ExMul(u[1], u[2])
       [] op = "Div" -> ExDiv(F, u[1], u[2])
       [] op = "Fma" -> ExSum(F, ExMul(u[1], u[2]), u[3], mode)
       [] op = "Sqrt" -> ExSqrt(F, u[1])
       [] op = "Rem" -> ExRem(F, u[1], u[2])
       [] op = "Round_to_integral" -> Integral(F, mode, u[1])
       [] op = "Abs" -> IF u[1].c = "nan" THEN ExN ELSE [u[1] EXCEPT !.s = 0]
       [] op = "Neg" -> IF u[1].c = "nan" THEN ExN ELSE Flip(u[1])

Arith == {"Add", "Sub", "Mul", "Div", "Fma", "Sqrt", "Rem", "Round_to_integral", "Abs", "Neg"}

(* order *)
Key(F, b) == IF Sgn(F, b) = 1 THEN 0 - (b % SignBit(F)) ELSE b
Less(F, a, b) == ~IsNaN(F, a) /\ ~IsNaN(F, b) /\ Key(F, a) < Key(F, b)
Same(F, a, b) == ~IsNaN(F, a) /\ ~IsNaN(F, b) /\ Key(F, a) = Key(F, b)

Bool(c) == IF c THEN 1 ELSE 0

(* the set of right answers *)
NaNs(F) == {Inf(F, s) + i : s \in {0, 1}, i \in 1..(2^F.m - 1)}

Extreme(F, a, b, first) ==
  CASE IsNaN(F, a) -> {b}
    [] IsNaN(F, b) -> {a}
    [] Same(F, a, b) -> {a, b}
    [] OTHER -> IF first THEN {a} ELSE {b}

Answers(F, op, mode, ins) ==
  CASE op \in Arith -> {Finish(F, mode, Exact(F, op, mode, ins))}
    [] op = "Min" -> Extreme(F, ins[1], ins[2], Less(F, ins[1], ins[2]))
    [] op = "Max" -> Extreme(F, ins[1], ins[2], Less(F, ins[2], ins[1]))
    [] op = "Lt" -> {Bool(Less(F, ins[1], ins[2]))}
    [] op = "Gt" -> {Bool(Less(F, ins[2], ins[1]))}
    [] op = "Leq" -> {Bool(Less(F, ins[1], ins[2]) \/ Same(F, ins[1], ins[2]))}
    [] op = "Geq" -> {Bool(Less(F, ins[2], ins[1]) \/ Same(F, ins[1], ins[2]))}
    [] op = "Eq" -> {Bool(Same(F, ins[1], ins[2]))}
    [] op = "Is_normal" -> {Bool(IsNormal(F, ins[1]))}
    [] op = "Is_subnormal" -> {Bool(IsSub(F, ins[1]))}
    [] op = "Is_zero" -> {Bool(IsZero(F, ins[1]))}
    [] op = "Is_infinite" -> {Bool(IsInf(F, ins[1]))}
    [] op = "Is_nan" -> {Bool(IsNaN(F, ins[1]))}
    [] op = "Is_negative" -> IF IsZero(F, ins[1]) THEN {0, Sgn(F, ins[1])} ELSE {Bool(~IsNaN(F, ins[1]) /\ Sgn(F, ins[1]) = 1)}
    [] op = "Is_positive" -> IF IsZero(F, ins[1]) THEN {0, 1 - Sgn(F, ins[1])} ELSE {Bool(~IsNaN(F, ins[1]) /\ Sgn(F, ins[1]) = 0)}

Preds == {"Lt", "Gt", "Leq", "Geq", "Eq", "Is_normal", "Is_subnormal", "Is_zero", "Is_infinite", "Is_nan", "Is_negative", "Is_positive"}

(* A format without subnormal numbers and NaNs (the default) says nothing about operands
   that are one; a result below the normal range becomes zero or the smallest normal. *)
InDomain(F, ins) == F.ieee \/ \A i \in 1..Len(ins) : ~IsNaN(F, ins[i]) /\ ~IsSub(F, ins[i])

Right(F, op, mode, ins, out) ==
  IF op \in Preds \/ op \in {"Min", "Max"} THEN (op \notin Preds /\ out >= 0 /\ IsNaN(F, out) /\ \A i \in 1..Len(ins) : IsNaN(F, ins[i])) \/ out \in Answers(F, op, mode, ins)
  ELSE LET r == Exact(F, op, mode, ins)
           b == Finish(F, mode, r)
       IN IF out < 0 THEN FALSE
          ELSE IF r.c = "nan" THEN ~F.ieee \/ IsNaN(F, out)
          ELSE IF ~F.ieee /\ r.c = "num" /\ (Tiny(F, r.q, r.x) \/ IsSub(F, b))
               THEN out \in {Zero(F, r.s), MinNorm(F, r.s)}
          ELSE out = b
=============================================================================
