---------------------------------- MODULE BV ----------------------------------
(* Fixed-width bit vectors as natural numbers below 2^w (TLC integers are 32 bit, *)
(* so w <= 30).                                                                    *)
EXTENDS Integers, Sequences, FiniteSets, Bitwise

Pow2(n) == 2^n
Trunc(w, x) == x % Pow2(w)
\* bits [lo, hi) of x, least significant bit first
Slice(x, lo, hi) == (x \div Pow2(lo)) % Pow2(hi - lo)
BitAt(x, i) == (x \div Pow2(i)) % 2
ToSigned(w, x) == IF w > 0 /\ x >= Pow2(w-1) THEN x - Pow2(w) ELSE x
BOr(x, y)  == x | y
BAnd(x, y) == x & y
BXor(x, y) == x ^^ y
BNot(w, x) == Pow2(w) - 1 - x
B2I(b) == IF b THEN 1 ELSE 0
=============================================================================
