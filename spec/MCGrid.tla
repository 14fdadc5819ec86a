------------------------------ MODULE MCGrid ------------------------------
(* Design check of Grid: every shape up to MaxW x MaxH, both kinds, with   *)
(* and without the stay action; and, on shapes of at most MaxWallCells     *)
(* cells, every wall set reachable by every sequence of wall edits.        *)
EXTENDS Grid, TLC
CONSTANTS MaxW, MaxH, MaxWallCells
VARIABLES g, walls, tab

Init == /\ g \in {GridGeom(k, w, h, b) : k \in {"square", "hex"},
                  w \in 1 .. MaxW, h \in 1 .. MaxH, b \in {0, 1}}
        /\ walls = NoWalls(g)
        /\ tab = SuccTab(g, walls)

Edit(i) == LET n == [walls EXCEPT ![i] = 1 - @]
           IN walls' = n /\ tab' = SuccTab(g, n) /\ UNCHANGED g
Clear == walls' = NoWalls(g) /\ tab' = SuccTab(g, NoWalls(g)) /\ UNCHANGED g
Next == g.ns <= MaxWallCells /\ (Clear \/ \E i \in 1 .. g.ns : Edit(i))
Spec == Init /\ [][Next]_<<g, walls, tab>>

Open(s) == walls[s + 1] = 0
Cells == States(g)
Moves == 0 .. (NMoves(g.kind) - 1)

(* Deterministic; the connection relation is exactly geometric contact. *)
Deterministic == \A s \in Cells, a \in Actions(g) : Len(tab[s + 1][a + 1]) <= 1
Contact == \A s, t \in Cells : (Open(s) /\ Open(t)) =>
   ((\E a \in Moves : t \in SuccSet(tab[s + 1][a + 1]))
      <=> Touch(g.kind, XOf(g, s), YOf(g, s), XOf(g, t), YOf(g, t)))
HexDistOne == g.kind = "hex" => \A s, t \in Cells :
   Touch("hex", XOf(g, s), YOf(g, s), XOf(g, t), YOf(g, t))
      <=> HexDist(XOf(g, s), YOf(g, s), XOf(g, t), YOf(g, t)) = 1
(* A direction has one bearing, wherever it is used. *)
Compass == \A a \in Moves : Cardinality({Bearing(g.kind, XOf(g, s), YOf(g, s),
                                XOf(g, t), YOf(g, t)) : <<s, t>> \in
      {p \in Cells \X Cells : p[2] \in SuccSet(tab[p[1] + 1][a + 1])}}) <= 1
Reversible == \A s \in Cells, a \in Moves : \A t \in SuccSet(tab[s + 1][a + 1]) :
      SuccSet(tab[t + 1][Opposite(g.kind, a) + 1]) = {s}
Distinct == \A s \in Cells, a, b \in Actions(g) :
      (a # b /\ tab[s + 1][a + 1] # <<>>) => tab[s + 1][a + 1] # tab[s + 1][b + 1]
Stay == g.stay = 1 => \A s \in Cells : Open(s) => SuccSet(tab[s + 1][g.na]) = {s}
Isolated == \A s \in Cells : ~Open(s) =>
      Possible(tab, s) = {} /\ \A t \in Cells : s \notin Reach1(tab, t)
Preserved == \A s, t \in Cells : (Open(s) /\ Open(t)) => \A a \in Actions(g) :
      t \in SuccSet(tab[s + 1][a + 1]) <=> t \in SuccSet(RawSuccs(g, s, a))
IdsInverse == \A s \in Cells : InGrid(g, XOf(g, s), YOf(g, s))
                               /\ Id(g, XOf(g, s), YOf(g, s)) = s
===========================================================================
