----------------------------- MODULE TracePlot -----------------------------
(* Judges logs of plots (C26): colours sampled from the rendered picture at *)
(* the position of every cell, and positions of markers, arrows and labels. *)
EXTENDS Plot, TraceLib
VARIABLES l, bad
vars == <<l, bad>>
C == <<"C26">>
At(p, q, tol) == Abs(p[1] - q[1]) <= tol /\ Abs(p[2] - q[2]) <= tol
N(e) == 1 .. e.g.ns
Where(e) == Chk(\A s \in N(e) : At(e.at[s], CellPos(e.g, s - 1), 5), C, "sampling position (harness)")
Colours(e) ==
  Where(e)
  \o Chk(\A s \in N(e) : \A c \in 1 .. 3 :
           Abs(e.pix[s][c] - Channel(e.feat, [f \in DOMAIN e.feat |-> e.cols[f][c]], e.alphas, e.walls, e.wallc[c], s)) <= 6, C,
         "a cell does not show the features and walls of its state")
Presence(e) ==
  Where(e)
  \o Chk(\A s \in N(e) : (e.white[s] = 0) <=> (e.walls[s] # 0 \/ \E f \in DOMAIN e.feat : e.feat[f][s] # 0), C,
         "a cell does not show whether its state has features or walls")
Positions(e) == Chk(Len(e.pos) = e.g.ns /\ \A s \in N(e) : At(e.pos[s], CellPos(e.g, s - 1), 20), C, "position of a state")
Values(e) ==
  LET lo == -SetMax({-e.v[s] : s \in N(e)})
      hi == SetMax({e.v[s] : s \in N(e)})
  IN Where(e)
     \o Chk(\A s \in N(e) : IF e.hide[s] = 1 THEN e.idx[s] = -1
                            ELSE Abs(e.idx[s] - (255 * (e.v[s] - lo)) \div (hi - lo)) <= 4, C,
            "a cell does not show the value of its state")
Markers(e) ==
  Chk(Len(e.marks) = Len(e.agents), C, "one marker per agent")
  \o Chk(\A i \in DOMAIN e.agents : \E k \in DOMAIN e.marks :
           e.marks[k].col = e.agents[i].col /\ At(e.marks[k].at, CellPos(e.g, e.agents[i].pos), 20), C,
         "an agent's marker is not on its cell")
Arrows(e) ==
  LET n == IF Len(e.tr) < 2 THEN 0 ELSE Len(e.tr) - 1
  IN Chk(Len(e.arrows) = n, C, "one arrow per move")
     \o Chk(\A i \in 1 .. Min2(n, Len(e.arrows)) :
              /\ At(e.arrows[i][1], CellPos(e.g, e.tr[i]), 20)
              /\ At(e.arrows[i][2], CellPos(e.g, e.tr[i + 1]), 20), C, "the arrows do not follow the visited cells in order")
Labels(e) ==
  Chk(Len(e.texts) = Len(e.tr), C, "one label per step")
  \o Chk(\A i \in 1 .. Min2(Len(e.tr), Len(e.texts)) : \E k \in DOMAIN e.texts :
           e.texts[k].n = i /\ At(e.texts[k].at, CellPos(e.g, e.tr[i]), 480000), C, "a step number is not in the cell visited")
Judge(e) ==
  IF e.exc # "" THEN Chk(FALSE, C, e.op \o " failed: " \o e.exc)
  ELSE CASE e.op = "malformed" -> Chk(FALSE, C, e.what)
         [] e.op = "colours" -> Colours(e)
         [] e.op = "presence" -> Presence(e)
         [] e.op = "positions" -> Positions(e)
         [] e.op = "values" -> Values(e)
         [] e.op = "markers" -> Markers(e)
         [] e.op = "arrows" -> Arrows(e)
         [] e.op = "refuse" -> Chk(e.got # "", C, e.what \o ": not refused")
         [] e.op = "labels" -> Labels(e)
         [] e.op = "unchanged" -> Chk(e.before = e.after, C, "plotting changed the environment")
Init == l = 1 /\ bad = <<>>
Step == /\ l <= Len(Log)
        /\ bad' = AddBad(bad, Tag(l, Log[l].id, Judge(Log[l])))
        /\ l' = l + 1
Finish == /\ l = Len(Log) + 1 /\ WriteVerdict(bad, 0) /\ l' = l + 1 /\ UNCHANGED bad
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
===========================================================================
