------------------------------- MODULE Search -------------------------------
(* Playouts of the tree search: agents (the planning agent first, then the  *)
(* others in environment order) move in turns on a copy of the world.       *)
(*                                                                         *)
(* c, the situation searched:                                              *)
(*   tab    successor table (deterministic)         ns                      *)
(*   node   positions; lay  layer row (1-based) of each agent               *)
(*   cons   features (0-based) consumed by each; rf  reward weights         *)
(*   cost   caught cost (scaled like rf); feat  the real features           *)
(*   slots  which agent moves when, flattened                               *)
(* p, a playout in progress: node, feat, act(ive), acc(umulated return),    *)
(*   over (the planning agent was caught)                                   *)
EXTENDS Bellman

NA(c) == Len(c.node)
(* nmoves[j][t]: moves of agent j in turn t. *)
RECURSIVE SlotsFrom(_, _, _)
SlotsFrom(nmoves, t, j) ==
  IF t > Len(nmoves[1]) THEN <<>>
  ELSE [k \in 1 .. nmoves[j][t] |-> j]
       \o (IF j < Len(nmoves) THEN SlotsFrom(nmoves, t, j + 1) ELSE SlotsFrom(nmoves, t + 1, 1))
Slots(nmoves) == SlotsFrom(nmoves, 1, 1)

P0(c) == [node |-> c.node, feat |-> c.feat, act |-> [j \in 1 .. NA(c) |-> TRUE], acc |-> 0, over |-> FALSE]

(* Who eats whom, in the order in which encounters are settled. *)
RECURSIVE PairSeq(_, _, _)
PairSeq(c, i, j) ==
  IF i > NA(c) THEN <<>>
  ELSE (IF i # j /\ (c.lay[j] - 1) \in c.cons[i] THEN << <<i, j>> >> ELSE <<>>)
       \o (IF j < NA(c) THEN PairSeq(c, i, j + 1) ELSE PairSeq(c, i + 1, 1))
Pairs(c) == PairSeq(c, 1, 1)

RECURSIVE Settle(_, _, _)
Settle(c, p, prs) ==
  IF prs = <<>> \/ p.over THEN p
  ELSE LET i == prs[1][1]
           j == prs[1][2]
       IN IF p.node[i] = p.node[j] /\ p.act[i] /\ p.act[j]
          THEN Settle(c, [p EXCEPT !.act[j] = FALSE,
                                   !.over = (j = 1),
                                   !.acc = @ + (IF j = 1 THEN c.cost
                                                ELSE IF i = 1 THEN c.rf[1][c.lay[j]] ELSE 0)], Tail(prs))
          ELSE Settle(c, p, Tail(prs))
(* Encounters are settled before each move. *)
Meet(c, p) == Settle(c, p, Pairs(c))

(* Agent j, active, moves to t: reward first, then its layer, then eating. *)
MoveTo(c, p, j, t) ==
  LET landed == SumF(LAMBDA r : c.rf[1][r] * p.feat[r][t + 1], 1, Len(p.feat))
      f1 == [p.feat EXCEPT ![c.lay[j]] = [s \in 1 .. c.ns |-> IF s = t + 1 THEN 1 ELSE 0]]
      f2 == [r \in DOMAIN f1 |-> IF (r - 1) \in c.cons[j] THEN [f1[r] EXCEPT ![t + 1] = 0] ELSE f1[r]]
  IN [p EXCEPT !.node[j] = t, !.feat = f2, !.acc = @ + (IF j = 1 THEN landed ELSE 0)]

Next1(c, p, j) == Reach1(c.tab, p.node[j])
===========================================================================
