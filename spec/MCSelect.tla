------------------------------ MODULE MCSelect ------------------------------
(* Every row of LEN actions over a small set of values: the definitions of  *)
(* Select have the properties they are meant to have.                       *)
EXTENDS Select
CONSTANTS LEN, VALS
VARIABLE row
Init == row \in [1 .. LEN -> VALS \cup {NInf, NaN}]
Next == \E k \in {-7, 5} : row' = [a \in 1 .. LEN |-> IF row[a] \in {NaN, NInf} THEN row[a] ELSE row[a] + k]
                           /\ \A a \in Finite(row) : row[a] \in VALS
Spec == Init /\ [][Next]_row
NeverUnknown == \A a \in MaxSet(row) : row[a] # NaN
NeverInf == Finite(row) # {} => \A a \in MaxSet(row) : row[a] # NInf
Dominates == \A a \in MaxSet(row), b \in Finite(row) : row[a] >= row[b]
NonEmpty == Known(row) # {} => MaxSet(row) # {}
Sums == Finite(row) # {} => Total(row) > 0 /\ \A a \in 1 .. LEN : Weight(row, a) <= 2 ^ GAP
Odds == \A a, b \in Finite(row) : (row[a] = row[b] + 1 /\ Top(row) - row[b] <= GAP) => Weight(row, a) = 2 * Weight(row, b)
ModeIsMax == Finite(row) # {} => MaxSet(row) = {a \in 1 .. LEN : Weight(row, a) = 2 ^ GAP}
ShiftFree == [][MaxSet(row') = MaxSet(row) /\ \A a \in 1 .. LEN : Finite(row) # {} => Weight(row', a) = Weight(row, a)]_row
===========================================================================
