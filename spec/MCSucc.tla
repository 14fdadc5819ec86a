------------------------------- MODULE MCSucc -------------------------------
(* Every deterministic table with NS states and 2 actions: the power series *)
(* I + gP + (gP)^2 + ... solves the defining equation, its rows sum to      *)
(* 1/(1-g) where no path dies, impossible pairs represent only themselves,  *)
(* and the residual test accepts nothing far from it.                       *)
EXTENDS Succ
CONSTANTS NS, SC, N
VARIABLE tab
Succ1 == {<<>>} \cup {<< <<t, 1>> >> : t \in 0 .. (NS - 1)}
Init == tab \in [1 .. NS -> [1 .. 2 -> Succ1]]
Next == UNCHANGED tab
Spec == Init /\ [][Next]_tab
P == Pairs(tab)
RECURSIVE Iter(_, _)
Iter(n, M) == IF n = 0 THEN M
              ELSE Iter(n - 1, TLCEval([i \in P |-> TLCEval([j \in P |-> Rhs(tab, M, 1, 2, SC, i, j) \div 4])]))
Zero == [i \in P |-> [j \in P |-> 0]]
M == Iter(N, Zero)
Sum(row) == SumSeq([j \in 1 .. (NS * 2) |-> row[j]])
Live == \A s \in 1 .. NS, a \in 1 .. 2 : tab[s][a] # <<>>
Good == LET m == TLCEval(M) IN
        /\ Solves(tab, m, 1, 2, SC, 3)
        /\ \A i \in P : Sum(m[i]) <= 2 * SC /\ m[i][i] >= SC
        /\ (Live => \A i \in P : Abs(Sum(m[i]) - 2 * SC) <= 2 * NS * 4)
        /\ \A i \in P : tab[PS(tab, i)][PA(tab, i)] = <<>> => \A j \in P : m[i][j] = (IF i = j THEN SC ELSE 0)
        /\ \A i, j \in P : ~Solves(tab, [m EXCEPT ![i][j] = @ + SC \div 50], 1, 2, SC, 3)
        /\ \A i \in P : PairValue(tab, m, [s \in 1 .. NS |-> 1], i) = Sum(m[i])
===========================================================================
