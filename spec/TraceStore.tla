----------------------------- MODULE TraceStore -----------------------------
(* Judges logs of saving and loading (C19).  e.x: the world before saving   *)
(* (from the live environment), e.after: after; d: what was saved, in the   *)
(* index and the coordinate format; y: the loaded environment.              *)
EXTENDS Store, TraceLib
VARIABLES l, bad
vars == <<l, bad>>
C == <<"C19">>
Set2(q) == {<<q[i][1], q[i][2]>> : i \in DOMAIN q}
Idx(e) == LET want == SaveIdx(e.x) IN
  Chk(e.d.type = "hex" /\ e.d.size = want.size, C, "saved size or type")
  \o Chk(e.d.stay = want.stay, C, "saved self-transition setting")
  \o Chk(e.d.names = e.names, C, "saved feature names or their order")
  \o Chk(Len(e.d.features) = Len(want.features) /\ \A f \in DOMAIN want.features : f \in DOMAIN e.d.features /\ Range(e.d.features[f]) = Range(want.features[f]), C,
         "saved feature states")
  \o Chk(Range(e.d.walls) = Range(want.walls), C, "saved walls")
  \o Chk(e.d.agents = want.agents, C, "saved agents")
  \o Chk(e.after = e.x, C, "saving changed the environment")
XY(e) == LET want == SaveXY(e.x) IN
  Chk(e.d.type = "hex" /\ e.d.size = want.size /\ e.d.stay = want.stay /\ e.d.names = e.names, C, "saved size, type, names or self-transition setting (coordinates)")
  \o Chk(Len(e.d.features) = Len(want.features) /\ \A f \in DOMAIN want.features : f \in DOMAIN e.d.features /\ Set2(e.d.features[f]) = Set2(want.features[f]), C,
         "coordinates of saved features")
  \o Chk(Set2(e.d.walls) = Set2(want.walls), C, "coordinates of saved walls")
  \o Chk(e.d.pos = [i \in DOMAIN e.x.agents |-> << <<XOf(Geo(e.x), e.x.agents[i].pos), YOf(Geo(e.x), e.x.agents[i].pos)>> >>], C,
         "coordinates of saved agents")
  \o Chk(e.after = e.x, C, "saving changed the environment")
(* An agent that was caught has lost its own feature; the format cannot express that. *)
Present(x) == \A i \in DOMAIN x.agents : x.own[i] = RowOf({x.agents[i].pos}, x.w * x.h)
Loaded(e) ==
  Chk(e.y.w = e.x.w /\ e.y.h = e.x.h /\ e.y.stay = e.x.stay, C, "loaded size or self-transition setting")
  \o Chk(e.y.feat = e.x.feat, C, "loaded features")
  \o Chk(e.y.walls = e.x.walls, C, "loaded walls")
  \o Chk(e.y.agents = e.x.agents, C, "loaded agents")
  \o Chk(Present(e.y), C, "agent features of the loaded environment")
  \o Chk(e.y.next = e.x.next, C, "transitions of the loaded environment")
  \o Chk(~Present(e.x) \/ e.vals[1] = e.vals[2], C, "the loaded environment is valued differently")
  \o Chk(~Present(e.x) \/ e.run[1] = e.run[2], C, "the loaded environment behaves differently")
Judge(e) ==
  IF e.exc # "" THEN Chk(FALSE, C, e.op \o " failed: " \o e.exc)
  ELSE CASE e.op = "malformed" -> Chk(FALSE, C, e.what)
         [] e.op = "save" -> Idx(e)
         [] e.op = "savexy" -> XY(e)
         [] e.op = "reorder" ->
              Chk(e.y = [n \in DOMAIN e.perm |-> e.x.feat[e.perm[n] + 1]], C, "features loaded by name are not in the order of the names")
         [] e.op = "load" -> Loaded(e)
Init == l = 1 /\ bad = <<>>
Step == /\ l <= Len(Log)
        /\ bad' = AddBad(bad, Tag(l, Log[l].id, Judge(Log[l])))
        /\ l' = l + 1
Finish == /\ l = Len(Log) + 1 /\ WriteVerdict(bad, 0) /\ l' = l + 1 /\ UNCHANGED bad
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
===========================================================================
