------------------------------- MODULE Learn -------------------------------
(* What the learners of multi_agent_mdp estimate from observed trajectories *)
(* (sequences of 0-based states), on the transition structure of Grid.      *)
(* feat[f][s+1] is feature f of state s; all reals have six decimals (Fix). *)
EXTENDS Bellman, Fix, TLC

(* Weight of outcome t in a row of the table. *)
OutW(q, t) == SumF(LAMBDA k : IF q[k][1] = t THEN q[k][2] ELSE 0, 1, Len(q))
(* The action of an observed move (0-based): the one most likely to make it, *)
(* the first of several equally likely ones; -1 when there is none.          *)
MoveAction(tab, s, t) ==
  LET as == {j \in DOMAIN tab[s + 1] : t \in SuccSet(tab[s + 1][j])}
      w(j) == OutW(tab[s + 1][j], t)
      best == {j \in as : \A k \in as : w(k) <= w(j)}
  IN IF as = {} THEN -1 ELSE (CHOOSE j \in best : \A k \in best : j <= k) - 1
Moves(tr) == IF Len(tr) < 2 THEN <<>> ELSE [i \in 1 .. (Len(tr) - 1) |-> <<tr[i], tr[i + 1]>>]

(* ---- counting features ---- *)
(* Feature matching: the features of every state moved into. *)
MatchCount(feat, f, tr) == SumF(LAMBDA i : feat[f][tr[i] + 1], 2, Len(tr))

(* The states seen from s in direction a (0-based), s included. *)
RECURSIVE Sight(_, _, _, _)
Sight(tab, s, a, seen) ==
  IF s \in Range(seen) THEN seen
  ELSE IF tab[s + 1][a + 1] = <<>> THEN Append(seen, s)
  ELSE Sight(tab, tab[s + 1][a + 1][1][1], a, Append(seen, s))
EyeLine(tab, s, a) == Sight(tab, s, a, <<>>)
SeenCount(tab, feat, f, s, a) ==
  LET q == EyeLine(tab, s, a) IN SumF(LAMBDA i : feat[f][q[i] + 1], 1, Len(q))

ChosenCount(tab, feat, f, tr, ndir) ==
  LET mv == Moves(tr)
  IN SumF(LAMBDA i : LET a == MoveAction(tab, mv[i][1], mv[i][2])
                     IN IF a < ndir THEN SeenCount(tab, feat, f, mv[i][1], a) ELSE 0, 1, Len(mv))
OtherCount(tab, feat, f, tr, ndir) ==
  LET mv == Moves(tr)
  IN SumF(LAMBDA i : LET a == MoveAction(tab, mv[i][1], mv[i][2])
                     IN SumF(LAMBDA b : IF b = a THEN 0 ELSE SeenCount(tab, feat, f, mv[i][1], b), 0, ndir - 1),
          1, Len(mv))
(* Normalised to sum to one over the features (all zero stays zero). *)
Normed(cs) == LET t == SumSeq(cs) IN [f \in DOMAIN cs |-> IF t = 0 THEN 0 ELSE FDiv(cs[f], t)]

(* ---- the delta rule ---- *)
(* q + n/d * (target - q) *)
Toward(q, target, n, d) == q + Frac(target - q, n, d)
(* Kernel of the angular distance between actions a and b out of na, for a  *)
(* length scale of ls hundredths: exp(-(360 k / na)^2 / 2 * (ls/100)^2).     *)
AngSteps(a, b, na) == LET k == Abs(a - b) IN Min2(k, na - k)
Kernel(a, b, na, ls) == LET k == AngSteps(a, b, na) * ls IN ExpNeg((6480000 * k * k) \div (na * na))
Target(a, b, na, ker, ls) == IF ker = 1 THEN Kernel(a, b, na, ls) ELSE IF a = b THEN ONE ELSE 0
(* Estimate (over actions) after observing the actions acts, the first of    *)
(* which is the k-th observed: the learning rate is n/d * k^-dec.            *)
RECURSIVE DecayRule(_, _, _, _, _, _, _, _)
DecayRule(q, acts, n, d, dec, k, ker, ls) ==
  IF acts = <<>> THEN q
  ELSE DecayRule(TLCEval([j \in DOMAIN q |-> Toward(q[j], Target(j - 1, Head(acts), Len(q), ker, ls), n, d * k ^ dec)]),
                 Tail(acts), n, d, dec, k + 1, ker, ls)
DeltaRule(q, acts, n, d, ker, ls) == DecayRule(q, acts, n, d, 0, 1, ker, ls)

ActsOf(tab, tr) == LET mv == Moves(tr) IN [i \in DOMAIN mv |-> MoveAction(tab, mv[i][1], mv[i][2])]

(* ---- maximum entropy ---- *)
Poss1(tab, s) == {j \in DOMAIN tab[s] : tab[s][j] # <<>>}      \* s 1-based here
MaxOver(q, P) == SetMax({q[j] : j \in P})
RECURSIVE SumOver(_, _)
SumOver(q, P) == IF P = {} THEN 0 ELSE LET j == CHOOSE x \in P : TRUE IN q[j] + SumOver(q, P \ {j})
(* ln(sum(exp q)) over P; the largest first keeps it in range *)
LogSumExp(q, P) == LET m == MaxOver(q, P)
                       e == TLCEval([j \in P |-> ExpNeg(m - q[j])])
                   IN m + LnFix(SumOver(e, P))
SoftPi(q, P, n) == LET m == MaxOver(q, P)
                       e == TLCEval([j \in P |-> ExpNeg(m - q[j])])
                       t == SumOver(e, P)
                   IN [j \in 1 .. n |-> IF j \in P THEN FDivP(e[j], t) ELSE 0]
(* rk: ranks of the action values (equal values, equal ranks) *)
HardPi(rk, P, n) == LET top == MaxOver(rk, P)
                        B == {j \in P : rk[j] = top}
                    IN [j \in 1 .. n |-> IF j \in B THEN ONE \div Cardinality(B) ELSE 0]
(* One step of propagating visits d through policy pi, restarting with p0. *)
Propagate(tab, den, p0, pi, d) ==
  [t \in DOMAIN tab |->
     p0[t] + SumF(LAMBDA s : SumF(LAMBDA j :
                LET q == tab[s][j]
                    w == SumF(LAMBDA k : IF q[k][1] + 1 = t THEN q[k][2] ELSE 0, 1, Len(q))
                IN IF w = 0 \/ pi[s][j] = 0 \/ d[s] = 0 THEN 0 ELSE Frac(FMul(d[s], pi[s][j]), w, den), 1, Len(tab[s])), 1, Len(tab))]
RECURSIVE Visits(_, _, _, _, _, _)
Visits(n, tab, den, p0, pi, d) ==
  IF n = 0 THEN d ELSE Visits(n - 1, tab, den, p0, pi, TLCEval(Propagate(tab, den, p0, pi, d)))
StartDist(ns, trs) == [s \in 1 .. ns |-> FDivP(Cardinality({i \in DOMAIN trs : trs[i][1] = s - 1}), Len(trs))]
CountIn(tr, s) == Cardinality({i \in DOMAIN tr : tr[i] = s})
(* Mean over trajectories of the fraction of the trajectory spent in a state. *)
Empirical(ns, trs) ==
  [s \in 1 .. ns |-> SumF(LAMBDA i : FDivP(CountIn(trs[i], s - 1), Len(trs[i])), 1, Len(trs)) \div Len(trs)]
FeatExp(feat, f, d) == SumF(LAMBDA s : feat[f][s] * d[s], 1, Len(d))

(* Soft value iteration: states are worth the log-sum-exp of their actions. *)
SoftSweep(tab, rew, v, gn, gd, den) ==
  [i \in DOMAIN tab |->
     LET P == Poss1(tab, i)
     IN IF P = {} THEN 0 ELSE LogSumExp(TLCEval([j \in P |-> ActVal(tab[i][j], rew, v, gn, gd, den)]), P)]
RECURSIVE SoftSweeps(_, _, _, _, _, _, _)
SoftSweeps(n, tab, rew, v, gn, gd, den) ==
  IF n = 0 THEN v ELSE SoftSweeps(n - 1, tab, rew, TLCEval(SoftSweep(tab, rew, v, gn, gd, den)), gn, gd, den)
SoftSolve(n, tab, rew, gn, gd, den) == SoftSweeps(n, tab, rew, [i \in DOMAIN tab |-> 0], gn, gd, den)

(* ---- hypothesis testing ---- *)
(* With decay, move number k uses the learning rate n/d over k^dec, times   *)
(* the asymmetry an/ad when the score z is weaker than the estimate it      *)
(* replaces (in absolute terms), divided by it otherwise.                   *)
DecayRates(n, d, an, ad, dec, k, z, old, tol) ==
  (IF z <= old + tol THEN {<<n * an, d * ad * k ^ dec>>} ELSE {})
  \cup (IF z >= old - tol THEN {<<n * ad, d * an * k ^ dec>>} ELSE {})
(* Standard score of q[j] among q[P], six decimals; deviations are rescaled *)
(* so that their squares fit.                                               *)
ZScore(q, P, j) ==
  LET n == Cardinality(P)
      mean == SumOver(q, P) \div n
      dev == TLCEval([i \in P |-> q[i] - mean])
      big == SetMax({Abs(dev[i]) : i \in P})
      k == big \div 8000 + 1
      dv == TLCEval([i \in P |-> dev[i] \div k])
      var == SumOver([i \in P |-> dv[i] * dv[i]], P) \div n
      sd4 == ISqrt(16 * var)                       \* 4 * standard deviation, in units of k
  IN IF sd4 = 0 THEN 0 ELSE ((40000 * dv[j]) \div sd4) * 100
Spread(q, P) == MaxOver(q, P) + MaxOver([j \in P |-> -q[j]], P)
===========================================================================
