------------------------------- MODULE MCPlot -------------------------------
(* The drawing is faithful: distinct cells are drawn apart, touching cells  *)
(* exactly one cell diameter apart, and a move in direction a is drawn in   *)
(* the same direction wherever it starts.                                   *)
EXTENDS Plot
CONSTANTS MAXW, MAXH
VARIABLES kind, w, h
Init == kind \in {"square", "hex"} /\ w \in 1 .. MAXW /\ h \in 1 .. MAXH
Next == UNCHANGED <<kind, w, h>>
Spec == Init /\ [][Next]_<<kind, w, h>>
g == GridGeom(kind, w, h, 0)
(* four times the squared planar distance (hex: outer radius 1), from column and doubled row *)
D4(s, t) == IF kind = "square"
            THEN 4 * ((XOf(g, s) - XOf(g, t)) * (XOf(g, s) - XOf(g, t)) + (YOf(g, s) - YOf(g, t)) * (YOf(g, s) - YOf(g, t)))
            ELSE LET dx == XOf(g, s) - XOf(g, t)
                     dy == PlanarY2(XOf(g, s), YOf(g, s)) - PlanarY2(XOf(g, t), YOf(g, t))
                 IN 9 * dx * dx + 3 * dy * dy
Min == IF kind = "square" THEN 4 ELSE 12
Apart == \A s, t \in States(g) : s # t => D4(s, t) >= Min
Touching == \A s, t \in States(g) : s # t => (D4(s, t) = Min <=> Touch(kind, XOf(g, s), YOf(g, s), XOf(g, t), YOf(g, t)))
Vec(s, t) == <<CellPos(g, t)[1] - CellPos(g, s)[1], CellPos(g, t)[2] - CellPos(g, s)[2]>>
SameWay == \A a \in 0 .. (g.na - 1) : \A s, t \in States(g) :
             LET p == RawSuccs(g, s, a)
                 q == RawSuccs(g, t, a)
             IN p # <<>> /\ q # <<>> =>
                  LET u == Vec(s, p[1][1])
                      v == Vec(t, q[1][1])
                  IN Abs(u[1] - v[1]) <= 2 /\ Abs(u[2] - v[2]) <= 2
(* the fixed-point positions are the planar ones *)
Rounding == \A s \in States(g) :
              kind = "hex" => Abs(2 * CellPos(g, s)[2] - 1732051 * PlanarY2(XOf(g, s), YOf(g, s))) <= 2
===========================================================================
