------------------------------- MODULE MCFix -------------------------------
(* The fixed-point operations against algebraic laws that determine them,   *)
(* over a grid of arguments.                                                *)
EXTENDS Fix, FiniteSets
CONSTANTS STEP, TOP
VARIABLES x, y
Dom == {k * STEP : k \in 0 .. TOP}
Init == x \in Dom /\ y \in {0, 1, 500, 999, 1000, 999999, 1000000, 333333, 7654321, 3000001}
Next == UNCHANGED <<x, y>>
Spec == Init /\ [][Next]_<<x, y>>
A(v) == IF v < 0 THEN -v ELSE v
MulOk == /\ FMul(x, ONE) = x /\ FMul(ONE, y) = y /\ FMul(x, y) = FMul(y, x)
         /\ FMul(-x, y) = -FMul(x, y) /\ FMul(-x, -y) = FMul(x, y)
         /\ A(FMul(x + ONE, y) - FMul(x, y) - y) <= 2
DivOk == y >= 100000 => /\ A(FMul(FDivP(x, y), y) - x) <= 3 + y \div ONE
                        /\ FDivP(y, y) = ONE /\ FDiv(-x, y) = -FDivP(x, y)
FracOk == A(Frac(x, 3, 7) - (x * 3) \div 7) <= 1 /\ Frac(x, 1, 1) = x
ExpOk == LET m == y % 4000000 IN
         /\ ExpNeg(0) = ONE
         /\ A(ExpNeg(x + m) - FMul(ExpNeg(x), ExpNeg(m))) <= 6      \* functional equation
         /\ (x < 1000000 => ExpNeg(x) <= ONE - x + ((x \div 1000) * (x \div 1000)) \div 2 + 1006)
         /\ (x < 1000000 => ExpNeg(x) >= ONE - x - 6)               \* derivative at 0
LnOk == LET v == ONE + (x % (15 * ONE)) IN
        LET l == LnFix(v) IN
        l > 15 * ONE \/ A(FMul(ExpNeg(l), v) - ONE) <= 30            \* inverse of exp
SqrtOk == LET r == ISqrt(x) IN r * r <= x /\ (r + 1) * (r + 1) > x
=============================================================================
