----------------------------- MODULE MCBellman -----------------------------
(* Every deterministic MDP with NS states and 2 actions (either possibly    *)
(* impossible) and small rewards, discount 1/2: value iteration as in       *)
(* Bellman finds the best stationary policy, found here by enumeration, and *)
(* the residual test used on logs accepts the solution and nothing far off. *)
EXTENDS Bellman, TLC
CONSTANTS NS, REW, SC
VARIABLES tab, rew
N == 1 .. NS
Succ1 == {<<>>} \cup {<< <<t, 1>> >> : t \in 0 .. (NS - 1)}
Init == /\ tab \in [N -> [1 .. 2 -> Succ1]]
        /\ rew \in [N -> REW]
Next == UNCHANGED <<tab, rew>>
Spec == Init /\ [][Next]_<<tab, rew>>

R == [s \in N |-> (rew[s] - 1) * SC]      \* rewards -1, 0, 2
V == Solve(20, tab, R, 1, 2, 1)
Poss(s) == {a \in 1 .. 2 : tab[s][a] # <<>>}
(* Discounted return of following policy pi for n steps from s. *)
RECURSIVE Ret(_, _, _)
Ret(pi, s, n) == IF n = 0 \/ pi[s] = 0 THEN 0
                 ELSE LET t == tab[s][pi[s]][1][1] + 1 IN R[t] + Ret(pi, t, n - 1) \div 2
Policies == {pi \in [N -> 0 .. 2] : \A s \in N : (Poss(s) = {} /\ pi[s] = 0) \/ pi[s] \in Poss(s)}
Optimal == \A s \in N : LET best == SetMax({Ret(pi, s, 16) : pi \in Policies}) IN Abs(V[s] - best) <= 4
Greedy == \A s \in N : Poss(s) # {} => \A a \in NearBest(tab, R, V, 1, 2, 1, s - 1, 4) : a \in Poss(s)
(* The residual test is decisive: shifting one value away breaks it. *)
Residual(v, s) == IF Poss(s) = {} THEN Abs(v[s])
                  ELSE Abs(v[s] - SetMax({ActVal(tab[s][a], R, v, 1, 2, 1) : a \in Poss(s)}))
Accepts == \A s \in N : Residual(V, s) <= 2
Rejects == \A s \in N : LET w == [V EXCEPT ![s] = @ + 40] IN \E u \in N : Residual(w, u) >= 10
===========================================================================
