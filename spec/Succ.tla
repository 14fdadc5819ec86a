-------------------------------- MODULE Succ --------------------------------
(* Successor representation of state-action pairs of a deterministic table, *)
(* in fixed point.  Pair (s, a) has index s * na + a + 1.                    *)
EXTENDS Grid
Pairs(tab) == 1 .. (Len(tab) * Len(tab[1]))
PS(tab, i) == (i - 1) \div Len(tab[1]) + 1               \* state (1-based) of a pair
PA(tab, i) == ((i - 1) % Len(tab[1])) + 1                \* action (1-based)
RECURSIVE RowSum(_, _, _, _)
RowSum(M, from, n, j) == IF n = 0 THEN 0 ELSE M[from + n][j] + RowSum(M, from, n - 1, j)
(* gd * na * ((I + gamma P M)[i][j]), exactly: the successor, then any action with equal probability *)
Rhs(tab, M, gn, gd, one, i, j) ==
  LET na == Len(tab[1])
      q == tab[PS(tab, i)][PA(tab, i)]
  IN (IF i = j THEN gd * na * one ELSE 0) + (IF q = <<>> THEN 0 ELSE gn * RowSum(M, q[1][1] * na, na, j))
Solves(tab, M, gn, gd, one, tol) ==
  LET na == Len(tab[1]) IN
  \A i, j \in Pairs(tab) : Abs(gd * na * M[i][j] - Rhs(tab, M, gn, gd, one, i, j)) <= gd * na * tol
(* Action value of a pair: the representation applied to the reward of each pair's state. *)
RECURSIVE Apply(_, _, _, _, _)
Apply(tab, M, rew, i, j) == IF j = 0 THEN 0 ELSE M[i][j] * rew[PS(tab, j)] + Apply(tab, M, rew, i, j - 1)
PairValue(tab, M, rew, i) == Apply(tab, M, rew, i, Len(tab) * Len(tab[1]))
===========================================================================
