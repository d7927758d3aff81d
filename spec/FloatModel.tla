------------------------------ MODULE FloatModel ------------------------------
(* The rounding of spec/Float against its definition, for every pair of operands of small
   formats: the magnitudes are numbered in order by their bits, infinity being the next
   number after the largest; the exact magnitude lies between two neighbours, and each
   mode picks one of them (and no mode but the outward ones reaches infinity from a
   magnitude beyond it, by the tie rule at the middle). *)
EXTENDS Float, TLC

CONSTANTS Fmts, Ops, Modes
VARIABLES F, a, b, mode, op
vars == <<F, a, b, mode, op>>

FmtsDef == {[e |-> 3, m |-> 2, ieee |-> TRUE]}
FmtsDeep == {[e |-> 3, m |-> 3, ieee |-> TRUE], [e |-> 2, m |-> 4, ieee |-> TRUE], [e |-> 3, m |-> 1, ieee |-> TRUE]}

Init == F \in Fmts /\ a \in 0..(2 * SignBit(F) - 1) /\ b = 0 /\ mode = "-" /\ op = "-"
Next == /\ op = "-"
        /\ b' \in 0..(2 * SignBit(F) - 1) /\ mode' \in Modes /\ op' \in Ops
        /\ UNCHANGED <<F, a>>
Spec == Init /\ [][Next]_vars

(* magnitude in units of the smallest number;  the code of infinity is the next power *)
N(c) == IF c \div 2^F.m = 0 THEN c ELSE (2^F.m + (c % 2^F.m)) * 2^(c \div 2^F.m - 1)
Codes == 0..Inf(F, 0)
V(c) == N(c % SignBit(F))
Sg(c) == IF Sgn(F, c) = 1 THEN -1 ELSE 1
Abs(n) == IF n < 0 THEN 0 - n ELSE n
Finite == ~IsNaN(F, a) /\ ~IsNaN(F, b) /\ ~IsInf(F, a) /\ ~IsInf(F, b)

(* the exact value as num/den units (den > 0); scale: the value of one unit is 2^EMin *)
U(n) == IF n >= 0 THEN 2^n ELSE 1
Num == CASE op = "Add" -> Sg(a) * V(a) + Sg(b) * V(b)
         [] op = "Sub" -> Sg(a) * V(a) - Sg(b) * V(b)
         [] op = "Mul" -> Sg(a) * Sg(b) * V(a) * V(b)
         [] op = "Div" -> Sg(a) * Sg(b) * V(a) * 2^(0 - EMin(F))
Den == CASE op \in {"Add", "Sub"} -> 1
         [] op = "Mul" -> 2^(0 - EMin(F))
         [] op = "Div" -> V(b)

Out == Finish(F, mode, Exact(F, op, mode, <<a, b>>))
M == Out % SignBit(F)

Lo == CHOOSE c \in Codes : N(c) * Den <= Abs(Num) /\ (c = Inf(F, 0) \/ N(c + 1) * Den > Abs(Num))
Neg == Num < 0
Pick == IF Lo = Inf(F, 0) THEN IF Up(mode, IF Neg THEN 1 ELSE 0, 1, TRUE) THEN Lo ELSE Lo - 1
        ELSE IF N(Lo) * Den = Abs(Num) THEN Lo
        ELSE CASE mode = "RTZ" -> Lo
               [] mode = "AWAY" -> Lo + 1
               [] mode = "RDN" -> IF Neg THEN Lo + 1 ELSE Lo
               [] mode = "RUP" -> IF Neg THEN Lo ELSE Lo + 1
               [] mode \in {"RNE", "RMM"} ->
                    LET below == Abs(Num) - N(Lo) * Den
                        above == N(Lo + 1) * Den - Abs(Num)
                    IN IF below < above THEN Lo ELSE IF above < below THEN Lo + 1
                       ELSE IF mode = "RMM" \/ Lo % 2 = 1 THEN Lo + 1 ELSE Lo

Correct == (op # "-" /\ Finite /\ (op # "Div" \/ V(b) # 0)) => /\ M = Pick
                                                  /\ (Num # 0 => Out = M + (IF Neg THEN SignBit(F) ELSE 0))

(* the square root and the remainder by what they mean *)
Root == Finish(F, mode, ExSqrt(F, ExU(Unpack(F, a))))
RootOk == (op = "Add" /\ b = 0 /\ ~IsNaN(F, a) /\ ~IsInf(F, a) /\ Sgn(F, a) = 0) =>
            LET v == V(a) * 2^(0 - EMin(F))        \* the square of the root in units
                lo == CHOOSE c \in Codes : N(c) * N(c) <= v /\ N(c + 1) * N(c + 1) > v
            IN IF N(lo) * N(lo) = v THEN Root = lo
               ELSE CASE mode \in {"RTZ", "RDN"} -> Root = lo
                      [] mode \in {"RUP", "AWAY"} -> Root = lo + 1
                      [] OTHER -> Root = (IF (N(lo) + N(lo + 1)) * (N(lo) + N(lo + 1)) < 4 * v THEN lo + 1 ELSE lo)

Rm == Finish(F, mode, ExRem(F, ExU(Unpack(F, a)), ExU(Unpack(F, b))))
RemOk == (op = "Add" /\ Finite /\ V(b) # 0) =>
            LET r == Sg(Rm) * V(Rm)
                x == Sg(a) * V(a)
                k == (x - r) \div (Sg(b) * V(b))
            IN /\ ~IsNaN(F, Rm) /\ ~IsInf(F, Rm)
               /\ k * Sg(b) * V(b) = x - r
               /\ 2 * Abs(r) <= V(b)
               /\ (2 * Abs(r) = V(b) => Abs(k) % 2 = 0)
               /\ (r = 0 => Sgn(F, Rm) = Sgn(F, a))

Whole == Finish(F, mode, Integral(F, mode, ExU(Unpack(F, a))))
One == 2^(0 - EMin(F))
IntOk == (op = "Add" /\ b = 0 /\ ~IsNaN(F, a) /\ ~IsInf(F, a)) =>
            LET lo == V(a) \div One
                exact == V(a) % One = 0
                up == CASE mode = "RTZ" -> FALSE [] mode = "AWAY" -> TRUE
                        [] mode = "RDN" -> Sgn(F, a) = 1 [] mode = "RUP" -> Sgn(F, a) = 0
                        [] mode = "RMM" -> 2 * (V(a) % One) >= One
                        [] mode = "RNE" -> 2 * (V(a) % One) > One \/ (2 * (V(a) % One) = One /\ lo % 2 = 1)
            IN Sgn(F, Whole) = Sgn(F, a) /\ V(Whole) = One * (IF exact \/ ~up THEN lo ELSE lo + 1)

(* (a * b) + c with c = 0 is the product, with b = 1 the sum *)
OneCode == Bias(F) * 2^F.m
FmaOk == op = "Add" => Finish(F, mode, Exact(F, "Fma", mode, <<a, OneCode, b>>)) = Finish(F, mode, Exact(F, "Add", mode, <<a, b>>))

NoCarry == op = "-" \/ (ExpF(F, Out) <= TopExp(F) /\ Out < 2 * SignBit(F))
=============================================================================
