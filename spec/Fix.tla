-------------------------------- MODULE Fix --------------------------------
(* Fixed-point arithmetic with six decimals in TLC's 32-bit integers.  One *)
(* operation is off by at most a few units (1e-6); MCFix bounds the error. *)
EXTENDS Integers, Sequences
ONE == 1000000
LOCAL AbsF(x) == IF x < 0 THEN -x ELSE x
LOCAL K == 1000

(* a * b / ONE for a, b >= 0 *)
LOCAL MulP(a, b) ==
  LET a1 == a \div K
      a0 == a % K
      b1 == b \div K
      b0 == b % K
  IN a1 * b1 + (a1 * b0 + a0 * b1 + ((a0 * b0) \div K)) \div K
FMul(a, b) == IF (a < 0) = (b < 0) THEN MulP(AbsF(a), AbsF(b)) ELSE -MulP(AbsF(a), AbsF(b))

(* a * n / d for small integers n, d (|n|, d <= 1000), without overflow *)
Frac(a, n, d) == LET q == a \div d
                     r == a % d
                 IN q * n + (r * n) \div d

(* a / b for 0 <= a, 0 < b <= 2 * 10^7, as long as the result fits *)
RECURSIVE Digits(_, _, _)
Digits(r, b, k) == IF k = 0 THEN 0
                         ELSE ((r * 100) \div b) * (100 ^ (k - 1)) + Digits((r * 100) % b, b, k - 1)
FDivP(a, b) == (a \div b) * ONE + Digits(a % b, b, 3)
FDiv(a, b) == IF a < 0 THEN -FDivP(-a, b) ELSE FDivP(a, b)

(* exp(-x) for x >= 0 *)
LOCAL E0 == <<1000000, 367879, 135335, 49787, 18316, 6738, 2479, 912, 335, 123, 45, 17, 6, 2, 1>>
LOCAL E1 == <<1000000, 904837, 818731, 740818, 670320, 606531, 548812, 496585, 449329, 406570>>
LOCAL E2 == <<1000000, 990050, 980199, 970446, 960789, 951229, 941765, 932394, 923116, 913931>>
ExpNeg(x) ==
  IF x >= 15 * ONE THEN 0
  ELSE LET i == x \div ONE
           j == (x % ONE) \div 100000
           k == (x % 100000) \div 10000
           r == x % 10000
           e3 == ONE - r + (r * r) \div 2000000
       IN FMul(E0[i + 1], FMul(E1[j + 1], FMul(E2[k + 1], e3)))

(* ln(x) for ONE <= x <= 16 * ONE *)
LOCAL LN2 == 693147
LOCAL Series(z) == LET z2 == FMul(z, z)
                       z3 == FMul(z, z2)
                       z5 == FMul(z3, z2)
                       z7 == FMul(z5, z2)
                       z9 == FMul(z7, z2)
                       zb == FMul(z9, z2)
                   IN 2 * (z + z3 \div 3 + z5 \div 5 + z7 \div 7 + z9 \div 9 + zb \div 11)
RECURSIVE LnFix(_)
LnFix(x) == IF x > 2 * ONE THEN LN2 + LnFix(x \div 2) ELSE Series(FDivP(x - ONE, x + ONE))

(* integer square root *)
RECURSIVE Newton(_, _)
Newton(n, x) == LET y == (x + n \div x) \div 2 IN IF y >= x THEN x ELSE Newton(n, y)
ISqrt(n) == IF n = 0 THEN 0 ELSE Newton(n, IF n < 46340 THEN n ELSE 46340)
=============================================================================
