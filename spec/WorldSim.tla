----------------------------- MODULE WorldSim -----------------------------
(* Random behaviours of World (TLC -simulate), printed as JSON so that the  *)
(* driver can replay them on the real code: the world chosen, then the      *)
(* operations in order.  Steps name the action and the state entered.       *)
EXTENDS World, TLC, Json
CONSTANT DEPTH
VARIABLES st, log, setup, done

Geos == {GridGeom("square", 3, 2, 0), GridGeom("square", 2, 4, 1), GridGeom("hex", 3, 3, 0),
         GridGeom("hex", 2, 3, 1), GridGeom("square", 1, 5, 0), GridGeom("hex", 4, 2, 1)}
Appetites == {<<>>, <<0>>, <<1>>, <<0, 1>>, <<3>>, <<1, 3>>, <<2, 0>>, <<3, 1>>, <<2>>}
OwnOf(g, k) == << [i \in 1 .. g.ns |-> IF (i + k) % 2 = 0 THEN 1 ELSE 0],
                  [i \in 1 .. g.ns |-> IF (i * (k + 1)) % 3 = 0 THEN (i % 4) ELSE 0] >>

Init ==
  \E g \in Geos, k \in 0 .. 2, c1 \in Appetites, c2 \in Appetites, s1 \in 0 .. 3, s2 \in 0 .. 4 :
    LET ag == << [start |-> s1, cons |-> c1, nm |-> 1], [start |-> s2, cons |-> c2, nm |-> 2] >> IN
    /\ 2 \notin Range(c1) /\ 3 \notin Range(c2)          \* nobody eats itself
    /\ setup = [g |-> g, own |-> OwnOf(g, k), agents |-> ag]
    /\ st = Assemble(g, NoWalls(g), OwnOf(g, k), ag)
    /\ log = <<>> /\ done = FALSE

Do(p, rec) == st' = p /\ log' = Append(log, rec) /\ UNCHANGED <<setup, done>>
Step == \E i \in AgIds(st) : \E a \in Possible(st.tab, st.pos[i]) :
          \E t \in SuccSet(st.tab[st.pos[i] + 1][a + 1]) :
            Do(StepPost(st, i, t), [op |-> "step", ag |-> i, a |-> a, t |-> t])
SetPos == \E i \in AgIds(st), s \in States(st.g) : Do(SetPosPost(st, i, s), [op |-> "setpos", ag |-> i, a |-> 0, t |-> s])
Walls == \E s \in States(st.g) : Do(WallsPost(st, [st.walls EXCEPT ![s + 1] = 1 - @]), [op |-> "walls", ag |-> 0, a |-> 0, t |-> s])
Eat == \E s \in States(st.g) : Do(EatPost(st, {0, 1}, s), [op |-> "eat", ag |-> 0, a |-> 0, t |-> s])
Reset == Do(ResetPost(st), [op |-> "reset", ag |-> 0, a |-> 0, t |-> 0])
(* In simulation each disjunct is equally likely: weight steps up. *)
Stop == Len(log) = DEPTH /\ ~done /\ done' = TRUE /\ UNCHANGED <<st, log, setup>>
Next == Stop \/
        /\ Len(log) < DEPTH
        /\ LET c == RandomElement(1 .. 20) IN
           CASE c <= 14 -> (IF ENABLED Step THEN Step ELSE SetPos)
             [] c \in {15, 16} -> SetPos
             [] c = 17 -> Walls
             [] c = 18 -> Eat
             [] OTHER -> Reset
Spec == Init /\ [][Next]_<<st, log, setup, done>>
Emit == ~done \/ PrintT("BEHAVIOUR " \o ToJson([setup |-> setup, log |-> log]))
===========================================================================
