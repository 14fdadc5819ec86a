------------------------------ MODULE MCLearn ------------------------------
(* A learner used over time: fits on trajectories through a small grid,     *)
(* resets, and what it returned.  The learner keeps running estimates       *)
(* incrementally; the invariants state them declaratively, from the whole   *)
(* history.                                                                 *)
EXTENDS Learn, TLC
CONSTANTS KIND, W, H, STAY, MAXFIT, LEN
VARIABLES init, est, data, since, returned, match
vars == <<init, est, data, since, returned, match>>
g == GridGeom(KIND, W, H, STAY)
walls == [i \in 1 .. g.ns |-> IF i = g.ns THEN 1 ELSE 0]
tab == SuccTab(g, walls)
feat == << [s \in 1 .. g.ns |-> s % 2], [s \in 1 .. g.ns |-> IF s = 1 THEN 2 ELSE 0] >>
RECURSIVE Paths(_, _)
Paths(s, n) == IF n = 1 THEN {<<s>>}
               ELSE {<<s>>} \cup {<<s>> \o p : p \in UNION {Paths(t, n - 1) : t \in Reach1(tab, s)}}
Trajs == UNION {Paths(s, LEN) : s \in States(g)}
Q0 == {[j \in 1 .. g.na |-> 0], [j \in 1 .. g.na |-> IF j = 1 THEN ONE \div 2 ELSE 250000]}
Init == /\ init \in Q0 /\ est = init
        /\ data = <<>> /\ since = <<>> /\ returned = <<>> /\ match = <<0, 0>>
(* n/d = 1/4 *)
Fit(tr) == /\ est' = DeltaRule(est, ActsOf(tab, tr), 1, 4, 0, 0)
           /\ data' = Append(data, tr)
           /\ since' = Append(since, tr)
           /\ returned' = Append(returned, est')
           /\ match' = [f \in 1 .. 2 |-> match[f] + MatchCount(feat, f, tr)]
           /\ UNCHANGED init
Reset == /\ since # <<>> /\ est' = init /\ since' = <<>> /\ match' = <<0, 0>>
         /\ UNCHANGED <<init, data, returned>>
Next == \/ Len(data) < MAXFIT /\ \E tr \in Trajs : Fit(tr)
        \/ Reset
Spec == Init /\ [][Next]_vars

RECURSIVE CatActs(_)
CatActs(trs) == IF trs = <<>> THEN <<>> ELSE ActsOf(tab, Head(trs)) \o CatActs(Tail(trs))
(* The estimate is the discounted sum over the whole history since the reset:        *)
(* init (3/4)^n + sum_i (3/4)^(n-i) 1/4 [a_i = j], whatever way it was split in fits. *)
Closed(j) == LET acts == CatActs(since)
                 n == Len(acts)
             IN Frac(init[j], 3 ^ n, 4 ^ n)
                + SumF(LAMBDA i : IF acts[i] = j - 1 THEN Frac(ONE, 3 ^ (n - i), 4 ^ (n - i + 1)) ELSE 0, 1, n)
ClosedForm == \A j \in DOMAIN est : Abs(est[j] - Closed(j)) <= 8
Bounded == \A j \in DOMAIN est : est[j] >= 0 /\ est[j] <= ONE
ResetRestores == since = <<>> => est = init /\ match = <<0, 0>>
RECURSIVE CatMoved(_)
CatMoved(trs) == IF trs = <<>> THEN <<>> ELSE (IF Len(Head(trs)) < 2 THEN <<>> ELSE Tail(Head(trs))) \o CatMoved(Tail(trs))
Matches == \A f \in 1 .. 2 : match[f] = SumSeq([i \in DOMAIN CatMoved(since) |-> feat[f][CatMoved(since)[i] + 1]])
(* Returned estimates are history: never rewritten. *)
Stable == [][ \A i \in DOMAIN returned : i \in DOMAIN returned' /\ returned'[i] = returned[i] ]_vars

(* Facts about the pure operators, on the last trajectory observed. *)
Last == IF data = <<>> THEN <<0>> ELSE data[Len(data)]
Lines == \A s \in States(g), a \in 0 .. (g.na - 1) :
           LET q == EyeLine(tab, s, a)
           IN /\ q[1] = s
              /\ \A i, k \in DOMAIN q : i # k => q[i] # q[k]
              /\ \A i \in 1 .. (Len(q) - 1) : q[i + 1] \in SuccSet(tab[q[i] + 1][a + 1])
              /\ (a < NMoves(KIND) /\ KIND = "square" =>
                    \A i \in DOMAIN q : XOf(g, q[i]) = XOf(g, s) \/ YOf(g, q[i]) = YOf(g, s))
              /\ (tab[q[Len(q)] + 1][a + 1] = <<>> \/ tab[q[Len(q)] + 1][a + 1][1][1] \in Range(q))
Norms == LET ndir == NMoves(KIND)
             c == [f \in 1 .. 2 |-> ChosenCount(tab, feat, f, Last, g.na)]
             d == [f \in 1 .. 2 |-> ChosenCount(tab, feat, f, Last, ndir)]
             o == [f \in 1 .. 2 |-> OtherCount(tab, feat, f, Last, ndir)]
             all == [f \in 1 .. 2 |-> SumF(LAMBDA i : SumF(LAMBDA a : SeenCount(tab, feat, f, Last[i], a), 0, ndir - 1), 1, Len(Last) - 1)]
         IN /\ (SumSeq(c) # 0 => Abs(SumSeq(Normed(c)) - ONE) <= 2)
            /\ \A f \in 1 .. 2 : d[f] + o[f] = all[f]
(* A learning rate of 1/k on the k-th move makes the estimate the frequency  *)
(* of each action, whatever it started from.                                 *)
Averages == LET acts == ActsOf(tab, Last)
                q == DecayRule(init, acts, 1, 1, 1, 1, 0, 0)
            IN acts # <<>> => \A j \in DOMAIN q :
                 Abs(q[j] - (ONE * Cardinality({i \in DOMAIN acts : acts[i] = j - 1})) \div Len(acts)) <= 2 * Len(acts)
(* Visits: with a stochastic policy that can always move, mass grows by one per iteration. *)
Uniform == [s \in 1 .. g.ns |-> [j \in 1 .. g.na |->
              IF j \in Poss1(tab, s) THEN ONE \div Cardinality(Poss1(tab, s)) ELSE 0]]
Mass == data = <<>> \/
        LET p0 == StartDist(g.ns, data)
            d == Visits(4, tab, 1, p0, Uniform, [s \in 1 .. g.ns |-> 0])
            stuck == \E i \in DOMAIN data : Poss1(tab, data[i][1] + 1) = {}
        IN /\ Abs(SumSeq(p0) - ONE) <= Len(data)
           /\ (~stuck => Abs(SumSeq(d) - 4 * ONE) <= 100)
           /\ Abs(SumSeq(Empirical(g.ns, data)) - ONE) <= 8
           /\ \A i, k \in DOMAIN data :     \* order of the trajectories is irrelevant
                LET sw == [data EXCEPT ![i] = data[k], ![k] = data[i]]
                IN StartDist(g.ns, sw) = p0 /\ Empirical(g.ns, sw) = Empirical(g.ns, data)
===========================================================================
