----------------------------- MODULE TraceGrid -----------------------------
(* Judges logs of MDP construction, wall edits and transition queries      *)
(* against Grid (properties C01-C04).                                      *)
EXTENDS Grid, TraceLib
VARIABLES l, st, bad
vars == <<l, st, bad>>

Topo(g) == IF g.kind = "square" THEN <<"C01">> ELSE IF g.kind = "hex" THEN <<"C02">> ELSE <<"C04">>
IsGrid(g) == g.kind # "table"
Pm == 100000  \* probabilities are logged in 1/Pm

(* --- effect of the operations on the set of walls ---------------------- *)
WallsAfter(s, e) ==
  CASE e.op = "new" -> IF e.haswalls = 1 THEN e.arg ELSE NoWalls(e.g)
    [] e.op = "setw" -> e.arg
    [] e.op = "addxy" -> AddXY(s.g, s.walls, e.x, e.y)
    [] e.op = "clear" -> NoWalls(s.g)
    [] OTHER -> s.walls

(* --- comparing a dump of the real object with the specification -------- *)
WellFormed(g, d) ==
  /\ Len(d.walls) = g.ns /\ Len(d.sas) = g.ns /\ Len(d.adj) = g.ns
  /\ \A i \in 1 .. g.ns : Len(d.sas[i]) = g.na /\ Len(d.adj[i]) = g.ns
  /\ Len(d.valid) = g.ns /\ Len(d.isadj) = g.ns /\ Len(d.next) = g.ns /\ Len(d.pair) = g.ns
  /\ \A i \in 1 .. g.ns : /\ Len(d.isadj[i]) = g.ns /\ Len(d.next[i]) = g.na
                          /\ Len(d.pair[i]) = g.ns
                          /\ \A j \in 1 .. g.na : \A k \in DOMAIN d.sas[i][j] :
                                d.sas[i][j][k][1] \in 0 .. (g.ns - 1)

(* Logged row of the table as a set of <<state, probability>>. *)
RowSet(q) == {<<q[k][1], q[k][2]>> : k \in DOMAIN q}
WantRow(g, q) == {<<q[k][1], q[k][2] * (Pm \div g.den)>> : k \in DOMAIN q}

DumpClauses(g, walls, d) ==
  LET tab == SuccTab(g, walls)
      raw == SuccTab(g, NoWalls(g))
      open(i) == walls[i] = 0
      anywall == \E i \in 1 .. g.ns : walls[i] = 1
      \* transitions between open states, as the geometry says
      rowok(i, j) == RowSet(d.sas[i][j]) = WantRow(g, tab[i][j])
      openpart(i, j) == {p \in RowSet(d.sas[i][j]) : open(p[1] + 1)}
      succOfLog(i, j) == {p[1] : p \in RowSet(d.sas[i][j])}
      logreach(i) == UNION {succOfLog(i, j) : j \in 1 .. g.na}
  IN Cat(<<
   Chk(d.walls = walls, <<"C03">>, "the set of walls is not the one the edits produce"),
   Chk(\A i \in 1 .. g.ns, j \in 1 .. g.na :
         open(i) => openpart(i, j) = WantRow(g, tab[i][j]),
       Topo(g) \o (IF anywall \/ d.edits > 0 THEN <<"C03">> ELSE <<>>),
       "a transition between open states differs from the geometry"),
   Chk(\A i \in 1 .. g.ns, j \in 1 .. g.na :
         /\ (~open(i) => d.sas[i][j] = <<>>)
         /\ \A p \in RowSet(d.sas[i][j]) : open(p[1] + 1),
       <<"C03">>, "a walled state can be entered or left"),
   \* agreement of the queries with the transition table of the object
   Chk(\A i, k \in 1 .. g.ns : (d.adj[i][k] # 0) <=> (k - 1) \in logreach(i),
       <<"C04">> \o (IF d.edits > 0 THEN <<"C03">> ELSE <<>>),
       "adjacency matrix disagrees with the transition table"),
   Chk(\A i, k \in 1 .. g.ns : (d.adj[i][k] # 0) <=> (k - 1) \in Reach1(tab, i - 1),
       Topo(g) \o <<"C04">> \o (IF anywall \/ d.edits > 0 THEN <<"C03">> ELSE <<>>),
       "adjacency matrix disagrees with the geometry"),
   Chk(\A i, k \in 1 .. g.ns : (d.isadj[i][k] = 1) <=> (k - 1) \in logreach(i),
       <<"C04">>, "is_adjacent disagrees with the transition table"),
   Chk(\A i \in 1 .. g.ns :
         /\ Range(d.valid[i]) = {j - 1 : j \in {j \in 1 .. g.na : d.sas[i][j] # <<>>}}
         /\ Len(d.valid[i]) = Cardinality(Range(d.valid[i])),
       <<"C04">>, "valid actions disagree with the transition table or repeat"),
   Chk(\A i \in 1 .. g.ns, j \in 1 .. g.na :
         d.next[i][j] # -9 =>
         IF d.sas[i][j] = <<>> THEN d.next[i][j] = -1 ELSE d.next[i][j] \in succOfLog(i, j),
       <<"C04">>, "next state is not a possible successor, or an impossible action was not refused with ValueError"),
   Chk(IsGrid(g) => \A i \in 1 .. g.ns, j \in 1 .. g.na :
         (d.next[i][j] # -9 /\ tab[i][j] # <<>>) => d.next[i][j] = tab[i][j][1][1],
       Topo(g), "the next state is not the neighbour in that direction"),
   Chk(\A i, k \in 1 .. g.ns :
         LET how == {j - 1 : j \in {j \in 1 .. g.na : (k - 1) \in succOfLog(i, j)}}
         IN d.pair[i][k] # -9 =>
            IF how = {} THEN d.pair[i][k] = -1 ELSE d.pair[i][k] \in how,
       <<"C04">>, "the action connecting two states is wrong, or a non-adjacent pair was not refused"),
   \* ... the most probable one, unless all are asked for
   Chk(\A i, k \in 1 .. g.ns :
         LET pr(j) == LET m == {p \in RowSet(d.sas[i][j]) : p[1] = k - 1}
                      IN IF m = {} THEN 0 ELSE (CHOOSE p \in m : TRUE)[2]
         IN d.pair[i][k] \in 0 .. (g.na - 1) =>
            \A j \in 1 .. g.na : pr(j) <= pr(d.pair[i][k] + 1),
       <<"C04">>, "the action connecting two states is not the most probable one"),
   Chk(\A k \in DOMAIN d.pairall :
         LET s == d.pairall[k][1]
             how == {j - 1 : j \in {j \in 1 .. g.na : d.pairall[k][2] \in succOfLog(s + 1, j)}}
         IN IF how = {} THEN d.pairall[k][3] = <<-1>>
            ELSE Range(d.pairall[k][3]) = how /\ Len(d.pairall[k][3]) = Cardinality(how),
       <<"C04">>, "the list of all actions connecting two states is wrong"),
   Chk(\A k \in DOMAIN d.traj :
         /\ Len(d.traj[k].sa) = Len(d.traj[k].states) - 1
         /\ \A m \in DOMAIN d.traj[k].sa :
              /\ d.traj[k].sa[m][1] = d.traj[k].states[m]
              /\ d.traj[k].sa[m][2] \in 0 .. (g.na - 1)
              /\ d.traj[k].states[m + 1] \in succOfLog(d.traj[k].states[m] + 1, d.traj[k].sa[m][2] + 1),
       <<"C04">>, "a trajectory is converted to the wrong state-action pairs"),
   Chk(d.ns = g.ns /\ d.na = g.na, Topo(g), "number of states or actions"),
   IF ~IsGrid(g) THEN <<>> ELSE Cat(<<
     Chk(\A i \in 1 .. g.ns : d.coords[i] = <<XOf(g, i - 1), YOf(g, i - 1)>>
                              /\ d.idx[i] = <<XOf(g, i - 1), YOf(g, i - 1)>>
                              /\ d.ids[i] = i - 1,
         Topo(g), "state ids and coordinates are not inverse or not x*height+y"),
     Chk(\A x \in 1 .. g.w, y \in 1 .. g.h : d.grid[x][y] = Id(g, x - 1, y - 1),
         Topo(g), "flat arrays are laid out on the grid in another order"),
     Chk(\A k \in DOMAIN d.mask : \A x \in 1 .. g.w, y \in 1 .. g.h :
            d.mgrid[k][x][y] = d.mask[k][Id(g, x - 1, y - 1) + 1],
         Topo(g), "flat arrays of another type are laid out on the grid in another order"),
     Chk(\A f \in DOMAIN d.fgrid : \A x \in 1 .. g.w, y \in 1 .. g.h :
            d.fgrid[f][x][y] = d.feat[f][Id(g, x - 1, y - 1) + 1],
         Topo(g), "features are laid out on the grid in another order") >>) >>)

(* Long, thin grids: transitions and conversions only. *)
BigClauses(e) ==
  LET g == e.g
      raw(i, j) == RawSuccs(g, i - 1, j - 1)
  IN Cat(<<
   Chk(e.exc = "", Topo(g), "the grid could not be built"),
   IF e.exc # "" THEN <<>> ELSE Cat(<<
     Chk(e.shape = <<g.ns, g.na, g.ns>>, Topo(g), "number of states or actions"),
     Chk(\A i \in 1 .. g.ns, j \in 1 .. g.na : RowSet(e.rows[i][j]) = WantRow(g, raw(i, j)),
         Topo(g), "a transition between open states differs from the geometry"),
     Chk(\A i \in 1 .. g.ns : e.coords[i] = <<XOf(g, i - 1), YOf(g, i - 1)>>
                              /\ e.idx[i] = <<XOf(g, i - 1), YOf(g, i - 1)>> /\ e.ids[i] = i - 1,
         Topo(g), "state ids and coordinates are not inverse or not x*height+y") >>) >>)

(* Sampling frequencies within six standard deviations, in proportion to the *)
(* probabilities of the outcomes that are not walled off.                    *)
RECURSIVE SumW(_, _)
SumW(row, k) == IF k > Len(row) THEN 0 ELSE row[k][2] + SumW(row, k + 1)
SampleClauses(s, e) ==
  LET row == Succs(s.g, s.walls, e.s, e.a)
      wt(t) == IF \E k \in DOMAIN row : row[k][1] = t
               THEN row[CHOOSE k \in DOMAIN row : row[k][1] = t][2] ELSE 0
      den == SumW(row, 1)
  IN Cat(<<
      Chk(e.exc = "", <<"C04">>, "sampling a possible action failed"),
      Chk(e.exc = "" => \A t \in States(s.g) : wt(t) = 0 => e.counts[t + 1] = 0,
          <<"C04">>, "a state of probability zero was sampled"),
      Chk(e.exc = "" => \A t \in States(s.g) :
            LET \* deviation in tenths, probability in 1/1000; there is slack for the truncations and for rare outcomes
                p == (1000 * wt(t)) \div den
                off == IF den <= 1000 THEN ((e.counts[t + 1] * 10 * den) - (10 * e.n * wt(t))) \div den
                       ELSE (e.counts[t + 1] * 10) - ((10 * e.n * ((wt(t) * 10000) \div den)) \div 10000)
            IN \/ Abs(off) <= 250
               \/ off * off <= ((((3600 * e.n) \div 1000) * p) \div 1000 + 1) * (1000 - p) + 60000,
          <<"C04">>, "sampling frequencies do not match the transition probabilities") >>)

Same(a, b) == a = b

Judge(s, e) ==
  CASE e.op = "malformed" -> Chk(FALSE, <<"C01", "C02", "C03", "C04">>, e.what)
    [] e.op = "sample" -> SampleClauses(s, e)
    [] e.op = "big" -> BigClauses(e)
    [] e.op = "dist" -> Chk(\A k \in DOMAIN e.pairs :
            e.pairs[k][5] = HexDist(e.pairs[k][1], e.pairs[k][2], e.pairs[k][3], e.pairs[k][4]),
            <<"C02">>, "hex distance")
    [] e.op = "badw" -> Cat(<<
         Chk(e.exc # "", <<"C03">>, "an invalid wall specification was accepted"),
         IF WellFormed(s.g, e.post) THEN DumpClauses(s.g, s.walls, e.post)
         ELSE Chk(FALSE, <<"C03">>, "malformed MDP after a refused wall specification") >>)
    [] OTHER ->
         LET g == IF e.op = "new" THEN e.g ELSE s.g
             w == WallsAfter(s, e)
             tags == Topo(g) \o <<"C03", "C04">>
         IN IF e.exc # "" THEN Chk(FALSE, IF e.op = "new" THEN tags ELSE <<"C03">>,
                                   "a legal operation was refused")
            ELSE IF ~WellFormed(g, e.post) THEN Chk(FALSE, tags, "malformed transition structure")
            ELSE Cat(<< DumpClauses(g, w, e.post),
                        Chk(Same(e.arg, e.argafter), <<"C03">>, "the caller's wall array was modified"),
                        Chk(e.oldarg = e.oldargafter, <<"C03">>, "an earlier wall array of the caller was modified") >>)

After(s, e) ==
  CASE e.op = "new" -> [g |-> e.g, walls |-> WallsAfter(s, e)]
    [] e.op \in {"setw", "addxy", "clear"} -> [s EXCEPT !.walls = WallsAfter(s, e)]
    [] OTHER -> s

Init == l = 1 /\ st = [g |-> <<>>, walls |-> <<>>] /\ bad = <<>>
Step == /\ l <= Len(Log)
        /\ LET e == Log[l] IN /\ bad' = AddBad(bad, Tag(l, e.id, Judge(st, e)))
                              /\ st' = After(st, e)
        /\ l' = l + 1
Finish == /\ l = Len(Log) + 1
          /\ WriteVerdict(bad, 0)
          /\ l' = l + 1 /\ UNCHANGED <<st, bad>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
===========================================================================
