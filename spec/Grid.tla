------------------------------- MODULE Grid -------------------------------
(* Geometry and transition structure of the worlds of multi_agent_mdp.     *)
(*                                                                         *)
(* A geometry is a record g:                                               *)
(*   [kind |-> "square" | "hex" | "table", w, h, stay : 0/1, ns, na,       *)
(*    tab |-> only for "table": tab[s+1][a+1] = << <<t, weight>>, ... >>,  *)
(*    den |-> total weight of one action (1 for grids) ]                   *)
(* States are 0-based; TLA+ sequences indexed by state use s+1.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
RECURSIVE SumSeq(_)
SumSeq(q) == IF q = <<>> THEN 0 ELSE Head(q) + SumSeq(Tail(q))
SetMax(S) == CHOOSE x \in S : \A y \in S : y <= x
Range(q) == {q[i] : i \in DOMAIN q}

States(g) == 0 .. (g.ns - 1)
Actions(g) == 0 .. (g.na - 1)
NMoves(kind) == IF kind = "square" THEN 4 ELSE 6

GridGeom(kind, w, h, stay) ==
  [kind |-> kind, w |-> w, h |-> h, stay |-> stay, ns |-> w * h,
   na |-> NMoves(kind) + stay, tab |-> <<>>, den |-> 1]

XOf(g, s) == s \div g.h
YOf(g, s) == s % g.h
Id(g, x, y) == x * g.h + y
InGrid(g, x, y) == x >= 0 /\ x < g.w /\ y >= 0 /\ y < g.h

(* Displacement of a direction.  Square: 0 +y, 1 +x, 2 -y, 3 -x.  Hexagons *)
(* in even-q offset coordinates: which diagonal neighbour is meant depends *)
(* on the parity of the column.                                            *)
Delta(kind, x, a) ==
  IF kind = "square"
  THEN CASE a = 0 -> <<0, 1>> [] a = 1 -> <<1, 0>>
         [] a = 2 -> <<0, -1>> [] a = 3 -> <<-1, 0>>
  ELSE IF x % 2 = 1
  THEN CASE a = 0 -> <<0, 1>>  [] a = 1 -> <<1, 0>>  [] a = 2 -> <<1, -1>>
         [] a = 3 -> <<0, -1>> [] a = 4 -> <<-1, -1>> [] a = 5 -> <<-1, 0>>
  ELSE CASE a = 0 -> <<0, 1>>  [] a = 1 -> <<1, 1>>  [] a = 2 -> <<1, 0>>
         [] a = 3 -> <<0, -1>> [] a = 4 -> <<-1, 0>> [] a = 5 -> <<-1, 1>>

Opposite(kind, a) == IF kind = "square" THEN (a + 2) % 4 ELSE (a + 3) % 6

(* Weighted successors << <<t, weight>>, ... >> ignoring walls. *)
RawSuccs(g, s, a) ==
  IF g.kind = "table" THEN g.tab[s + 1][a + 1]
  ELSE IF a = NMoves(g.kind) THEN << <<s, 1>> >>
  ELSE LET x == XOf(g, s)
           d == Delta(g.kind, x, a)
           nx == x + d[1]
           ny == YOf(g, s) + d[2]
       IN IF InGrid(g, nx, ny) THEN << <<Id(g, nx, ny), 1>> >> ELSE <<>>

(* The same with walls: nothing enters or leaves a walled state. *)
Succs(g, walls, s, a) ==
  IF walls[s + 1] = 1 THEN <<>>
  ELSE SelectSeq(RawSuccs(g, s, a), LAMBDA p : walls[p[1] + 1] = 0)

SuccTab(g, walls) ==
  TLCEval([i \in 1 .. g.ns |-> TLCEval([j \in 1 .. g.na |-> Succs(g, walls, i - 1, j - 1)])])

SuccSet(q) == {q[i][1] : i \in DOMAIN q}
Possible(tab, s) == {a \in 0 .. (Len(tab[s + 1]) - 1) : tab[s + 1][a + 1] # <<>>}
Reach1(tab, s) == UNION {SuccSet(tab[s + 1][j]) : j \in DOMAIN tab[s + 1]}
NoWalls(g) == [i \in 1 .. g.ns |-> 0]

(* Adding walls by coordinates: a pair is a half-open range, anything else  *)
(* a list of indices.                                                       *)
AxisRange(q) == IF Len(q) = 2 THEN q[1] .. (q[2] - 1) ELSE Range(q)
AddXY(g, walls, xs, ys) ==
  [i \in 1 .. g.ns |-> IF XOf(g, i - 1) \in AxisRange(xs) /\ YOf(g, i - 1) \in AxisRange(ys)
                       THEN 1 ELSE walls[i]]

---------------------------------------------------------------------------
(* Independent characterisations, used to check the definitions above.     *)

(* Doubled planar centre of a hexagon: vertical position of even columns   *)
(* is shifted by half a cell; touching hexagons differ by (0,+-2) or       *)
(* (+-1,+-1) in (column, doubled vertical position).                       *)
PlanarY2(x, y) == IF x % 2 = 0 THEN 2 * y + 1 ELSE 2 * y
Touch(kind, x1, y1, x2, y2) ==
  IF kind = "square" THEN Abs(x1 - x2) + Abs(y1 - y2) = 1
  ELSE LET dx == Abs(x1 - x2)
           dy == Abs(PlanarY2(x1, y1) - PlanarY2(x2, y2))
       IN (dx = 0 /\ dy = 2) \/ (dx = 1 /\ dy = 1)
(* Compass bearing of a direction in those planar coordinates. *)
Bearing(kind, x1, y1, x2, y2) ==
  IF kind = "square" THEN <<x2 - x1, y2 - y1>>
  ELSE <<x2 - x1, PlanarY2(x2, y2) - PlanarY2(x1, y1)>>

(* Cube coordinates and hex distance (even-q). *)
Cube(x, y) == LET z == y - ((x + (x % 2)) \div 2) IN <<x, -x - z, z>>
HexDist(x1, y1, x2, y2) ==
  LET a == Cube(x1, y1)
      b == Cube(x2, y2)
  IN (Abs(a[1] - b[1]) + Abs(a[2] - b[2]) + Abs(a[3] - b[3])) \div 2
===========================================================================
