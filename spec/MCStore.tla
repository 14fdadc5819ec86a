------------------------------- MODULE MCStore -------------------------------
(* Loading inverts saving, and the two formats name the same cells, for     *)
(* every small world; saving is deterministic and injective.                *)
EXTENDS Store
CONSTANTS MAXW, MAXH, NF
VARIABLE x
Rows(n) == [1 .. n -> {0, 1}]
Init == \E w \in 1 .. MAXW, h \in 1 .. MAXH, st \in {0, 1} :
          \E f \in [1 .. NF -> Rows(w * h)], wl \in Rows(w * h), p \in {0, w * h - 1} :
            x = [w |-> w, h |-> h, stay |-> st, names |-> <<"p", "q">>, feat |-> f, walls |-> wl,
                 agents |-> <<[name |-> "a", pos |-> p]>>]
Next == UNCHANGED x
Spec == Init /\ [][Next]_x
RoundTrip == Load(SaveIdx(x)) = x
SameCells == LET i == SaveIdx(x)
                 c == SaveXY(x)
             IN /\ \A f \in DOMAIN i.features : /\ Len(c.features[f]) = Len(i.features[f])
                                                /\ \A k \in DOMAIN c.features[f] :
                                                     Id(Geo(x), c.features[f][k][1], c.features[f][k][2]) = i.features[f][k]
                /\ \A k \in DOMAIN c.walls : Id(Geo(x), c.walls[k][1], c.walls[k][2]) = i.walls[k]
Sizes == \A f \in DOMAIN x.feat : Len(SaveIdx(x).features[f]) = SumSeq(x.feat[f])
===========================================================================
