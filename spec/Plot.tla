-------------------------------- MODULE Plot --------------------------------
(* Where things are drawn (six decimals) and what colour a cell gets.       *)
EXTENDS Grid
(* Centre of the cell of state s.  Hexagons have outer radius 1. *)
CellPos(g, s) ==
  LET x == XOf(g, s)
      y == YOf(g, s)
  IN IF g.kind = "square" THEN <<1000000 * x, 1000000 * y>>
     ELSE <<1500000 * x, 1732051 * y + (IF x % 2 = 0 THEN 866025 ELSE 0)>>
(* One channel (0..255) after painting colour c with opacity a percent on p. *)
Paint(p, c, a) == (p * (100 - a) + c * a) \div 100
RECURSIVE Layers(_, _, _, _, _, _)
Layers(p, feat, cols, alphas, s, k) ==       \* channel values: cols[f] for one channel
  IF k > Len(feat) THEN p
  ELSE Layers(IF feat[k][s] # 0 THEN Paint(p, cols[k], alphas[k]) ELSE p, feat, cols, alphas, s, k + 1)
Channel(feat, cols, alphas, walls, wallc, s) ==
  IF walls[s] # 0 THEN wallc ELSE Layers(255, feat, cols, alphas, s, 1)
===========================================================================
