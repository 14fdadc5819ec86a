------------------------------ MODULE Bellman ------------------------------
(* Optimal values of a (possibly stochastic) MDP with rewards on the state  *)
(* entered, in fixed-point arithmetic.  rew[t+1] is the reward of entering  *)
(* t and gn/gd the discount, both rewards and values scaled alike.          *)
EXTENDS Grid, TLC

RECURSIVE SumF(_, _, _)
SumF(F(_), a, b) == IF a > b THEN 0 ELSE F(a) + SumF(F, a + 1, b)
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y

(* den * gd * (value of an action with successors q), exactly. *)
Backup(q, rew, v, gn, gd) ==
  SumF(LAMBDA k : q[k][2] * (gd * rew[q[k][1] + 1] + gn * v[q[k][1] + 1]), 1, Len(q))

(* One sweep of value iteration (rounded towards minus infinity). *)
ActVal(q, rew, v, gn, gd, den) == Backup(q, rew, v, gn, gd) \div (gd * den)
Sweep(tab, rew, v, gn, gd, den) ==
  [i \in DOMAIN tab |->
     LET poss == {j \in DOMAIN tab[i] : tab[i][j] # <<>>}
     IN IF poss = {} THEN 0 ELSE SetMax({ActVal(tab[i][j], rew, v, gn, gd, den) : j \in poss})]
RECURSIVE Sweeps(_, _, _, _, _, _, _)
Sweeps(n, tab, rew, v, gn, gd, den) ==
  IF n = 0 THEN v
  ELSE LET w == TLCEval(Sweep(tab, rew, v, gn, gd, den))
       IN IF w = v THEN v ELSE Sweeps(n - 1, tab, rew, w, gn, gd, den)
Solve(n, tab, rew, gn, gd, den) == Sweeps(n, tab, rew, [i \in DOMAIN tab |-> 0], gn, gd, den)
QOf(tab, rew, v, gn, gd, den, s) ==
  [j \in DOMAIN tab[s + 1] |-> ActVal(tab[s + 1][j], rew, v, gn, gd, den)]
(* Actions within eps of the best possible one. *)
NearBest(tab, rew, v, gn, gd, den, s, eps) ==
  LET poss == {j \in DOMAIN tab[s + 1] : tab[s + 1][j] # <<>>}
      q == [j \in poss |-> ActVal(tab[s + 1][j], rew, v, gn, gd, den)]
  IN {j \in poss : \A k \in poss : q[k] <= q[j] + eps}

(* Reward of each state under weights rf. *)
Rewards(rf, feat, ns) == [s \in 1 .. ns |-> SumF(LAMBDA r : rf[r] * feat[r][s], 1, Len(feat))]
===========================================================================
