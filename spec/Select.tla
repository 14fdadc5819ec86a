------------------------------- MODULE Select -------------------------------
(* Action selection.  A row of action values is a sequence of integers k    *)
(* (the value is k units), with NInf for minus infinity and NaN for         *)
(* unknown.  Softmax is stated at the temperature at which one unit of      *)
(* value doubles the odds.                                                  *)
EXTENDS Integers, Sequences, FiniteSets
NInf == -2000000002
NaN == -2000000001
Known(row) == {a \in DOMAIN row : row[a] # NaN}
Finite(row) == {a \in DOMAIN row : row[a] \notin {NaN, NInf}}
Best(row) == {a \in Known(row) : \A b \in Known(row) : row[b] <= row[a] \/ row[b] = NInf}
(* Maximal known actions; minus infinity is below every number. *)
MaxSet(row) == IF Finite(row) # {} THEN {a \in Finite(row) : \A b \in Finite(row) : row[b] <= row[a]}
               ELSE Known(row)
Top(row) == LET m == CHOOSE a \in Finite(row) : \A b \in Finite(row) : row[b] <= row[a] IN row[m]
(* Weights: 2^(GAP - distance from the best); beyond GAP they are not       *)
(* representable and taken as 0 (logs keep to gaps that are either exact or *)
(* negligible).                                                             *)
GAP == 10
Weight(row, a) == IF a \notin Finite(row) THEN 0
                  ELSE LET d == Top(row) - row[a] IN IF d > GAP THEN 0 ELSE 2 ^ (GAP - d)
RECURSIVE WSum(_, _)
WSum(row, n) == IF n = 0 THEN 0 ELSE Weight(row, n) + WSum(row, n - 1)
Total(row) == WSum(row, Len(row))
===========================================================================
