------------------------------ MODULE MCSearch ------------------------------
(* All playouts of small situations: a planning prey, a predator that eats  *)
(* it, and a third agent that the prey eats; free choice of moves.          *)
EXTENDS Search, TLC
CONSTANTS W, H, KIND, TURNS, CASES
VARIABLES c, p, k, land, caught, moves
vars == <<c, p, k, land, caught, moves>>

geo == GridGeom(KIND, W, H, 1)
Own == << [i \in 1 .. geo.ns |-> IF i % 2 = 0 THEN 2 ELSE 0] >>
Nm(x) == CASE x = 1 -> << [t \in 1 .. TURNS |-> 1], [t \in 1 .. TURNS |-> 1], [t \in 1 .. TURNS |-> 1] >>
           [] x = 2 -> << [t \in 1 .. TURNS |-> 2], [t \in 1 .. TURNS |-> 1], [t \in 1 .. TURNS |-> 0] >>
           [] x = 3 -> << [t \in 1 .. TURNS |-> 1], [t \in 1 .. TURNS |-> 2], [t \in 1 .. TURNS |-> t % 2] >>
Eat(x) == CASE x = 1 -> << {0, 3}, {1}, {} >>
            [] x = 2 -> << {3}, {1, 3}, {0} >>
            [] x = 3 -> << {2, 3}, {1}, {0, 1} >>
Sit(x, n2, n3) ==
  LET node == <<0, n2, n3>> IN
  [tab |-> SuccTab(geo, NoWalls(geo)), ns |-> geo.ns, node |-> node, lay |-> <<2, 3, 4>>,
   cons |-> Eat(x), rf |-> << <<1, 0, -3, 5>>, <<0, 4, 0, 0>>, <<1, 0, 0, 0>> >>, cost |-> -50,
   feat |-> Own \o [j \in 1 .. 3 |-> [s \in 1 .. geo.ns |-> IF s = node[j] + 1 THEN 1 ELSE 0]],
   slots |-> Slots(Nm(x))]
Init == \E x \in 1 .. CASES, n2 \in {0, geo.ns - 1}, n3 \in {1, geo.ns - 1} :
   /\ c = Sit(x, n2, n3) /\ p = P0(c)
   /\ k = 0 /\ land = 0 /\ caught = <<0, 0, 0>> /\ moves = <<0, 0, 0>>
Step ==
  /\ k < Len(c.slots) /\ ~p.over
  /\ k' = k + 1 /\ UNCHANGED c
  /\ LET m == Meet(c, p)
         j == c.slots[k + 1] IN
     /\ caught' = [i \in 1 .. 3 |-> caught[i] + (IF p.act[i] /\ ~m.act[i] THEN 1 ELSE 0)]
     /\ IF m.over \/ ~m.act[j] THEN p' = m /\ UNCHANGED <<land, moves>>
        ELSE \E t \in Next1(c, m, j) :
               /\ p' = MoveTo(c, m, j, t)
               /\ moves' = [moves EXCEPT ![j] = @ + 1]
               /\ land' = land + (IF j = 1 THEN SumF(LAMBDA r : c.rf[1][r] * m.feat[r][t + 1], 1, 4) ELSE 0)
Next == Step
Spec == Init /\ [][Next]_vars

(* --- what must hold ------------------------------------------------------ *)
Budget == \A j \in 1 .. 3 : moves[j] <= Cardinality({i \in 1 .. k : c.slots[i] = j})
FullUnlessCaught == (~p.over) => moves[1] = Cardinality({i \in 1 .. k : c.slots[i] = 1})
CaughtOnce == \A j \in 1 .. 3 : caught[j] <= 1 /\ (caught[j] = 1 <=> ~p.act[j])
OverIffCaught == p.over <=> caught[1] = 1
Return == LET prey == SumF(LAMBDA j : IF caught[j] = 1 THEN 1 ELSE 0, 2, 3) IN
   \* landings, plus values of at most the caught agents, plus the cost if caught
   \E S \in SUBSET {j \in 2 .. 3 : caught[j] = 1} :
      p.acc = land + SumF(LAMBDA j : IF j \in S THEN c.rf[1][c.lay[j]] ELSE 0, 2, 3) + (IF p.over THEN c.cost ELSE 0)
RealUntouched == c.feat = P0(c).feat
OwnOnlyShrinks == \A s \in 1 .. c.ns : p.feat[1][s] \in {0, c.feat[1][s]}
LayersMirror == \A j \in 1 .. 3 : moves[j] > 0 /\ p.act[j]
   => p.feat[c.lay[j]] \in {[s \in 1 .. c.ns |-> IF s = p.node[j] + 1 THEN 1 ELSE 0], [s \in 1 .. c.ns |-> 0]}
CaughtStay == [][\A j \in 1 .. 3 : ~p.act[j] => p'.node[j] = p.node[j] /\ ~p'.act[j]]_vars
EatersOnly == [][\A j \in 1 .. 3 : (p.act[j] /\ ~p'.act[j]) =>
                   \E i \in 1 .. 3 : i # j /\ p.node[i] = p.node[j] /\ (c.lay[j] - 1) \in c.cons[i] /\ p.act[i]]_vars
===========================================================================
