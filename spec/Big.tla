---------------------------------- MODULE Big ----------------------------------
(* Natural numbers of any size, as strings of decimal digits: balances and fixed-point prices exceed TLC's integers.    *)
(* TLC evaluates these operators with java/Big.java; the definitions here give their meaning for numbers within bounds. *)
EXTENDS Integers
LOCAL INSTANCE TLC
LOCAL Num(a) == CHOOSE k \in Nat : ToString(k) = a
BNat(k) == ToString(k)
BAdd(a, b) == ToString(Num(a) + Num(b))
BSub(a, b) == IF Num(a) <= Num(b) THEN "0" ELSE ToString(Num(a) - Num(b))
BMul(a, b) == ToString(Num(a) * Num(b))
BMulDiv(a, b, c) == ToString((Num(a) * Num(b)) \div Num(c))
BMulDivN(a, b, c) == LET x == Num(a) * Num(b) IN ToString(x \div Num(c) + (IF 2 * (x % Num(c)) > Num(c) THEN 1 ELSE 0))
BInt(a) == Num(a)      \* for results within bounds
BLeq(a, b) == Num(a) <= Num(b)
BSqrt(a) == ToString(CHOOSE k \in Nat : k * k <= Num(a) /\ (k + 1) * (k + 1) > Num(a))   \* rounded down
BPow10(k) == ToString(10 ^ k)
================================================================================
