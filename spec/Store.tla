-------------------------------- MODULE Store --------------------------------
(* Saving and loading environments on hexagonal grids.  A world is          *)
(*   [w, h, stay, names, feat, walls, agents]                                *)
(* with feat the presence/absence features without the agents' own ones and *)
(* agents a sequence of records [name, pos, nm, rf, cons, alg, sel].        *)
EXTENDS Grid
IndexOf(row) == {i - 1 : i \in {j \in DOMAIN row : row[j] # 0}}
RowOf(set, n) == [i \in 1 .. n |-> IF (i - 1) \in set THEN 1 ELSE 0]
Sorted(set) == CHOOSE q \in [1 .. Cardinality(set) -> set] : \A i \in 1 .. (Cardinality(set) - 1) : q[i] < q[i + 1]
(* states of a 0/1 row in increasing order *)
RECURSIVE Listed(_, _)
Listed(row, i) == IF i > Len(row) THEN <<>> ELSE (IF row[i] # 0 THEN <<i - 1>> ELSE <<>>) \o Listed(row, i + 1)
CoordsOf(g, states) == [k \in DOMAIN states |-> <<XOf(g, states[k]), YOf(g, states[k])>>]
Geo(x) == [w |-> x.w, h |-> x.h]

SaveIdx(x) == [size |-> <<x.w, x.h>>, stay |-> x.stay, names |-> x.names,
               features |-> [f \in DOMAIN x.feat |-> Listed(x.feat[f], 1)],
               walls |-> Listed(x.walls, 1),
               agents |-> x.agents]
SaveXY(x) == LET i == SaveIdx(x) IN
             [i EXCEPT !.features = [f \in DOMAIN i.features |-> CoordsOf(Geo(x), i.features[f])],
                       !.walls = CoordsOf(Geo(x), i.walls)]
Load(d) == LET n == d.size[1] * d.size[2] IN
           [w |-> d.size[1], h |-> d.size[2], stay |-> d.stay, names |-> d.names,
            feat |-> [f \in DOMAIN d.features |-> RowOf(Range(d.features[f]), n)],
            walls |-> RowOf(Range(d.walls), n),
            agents |-> d.agents]
===========================================================================
