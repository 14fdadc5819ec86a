------------------------------ MODULE MCWorld ------------------------------
(* Exhaustive exploration of World on a small world: every interleaving of *)
(* steps (any legal move), placements, wall edits, direct consumption and  *)
(* resets of three agents with different appetites (a predator that eats   *)
(* the prey's layer, a grazer that eats two features, a bystander).        *)
EXTENDS World, TLC
CONSTANTS W, H, KIND, MAXN
VARIABLES st, last, ate

geo == GridGeom(KIND, W, H, 0)
own == << [i \in 1 .. geo.ns |-> IF i % 2 = 0 THEN 1 ELSE 0],
          [i \in 1 .. geo.ns |-> IF i = geo.ns THEN 3 ELSE 0] >>
agents == << [start |-> 0, cons |-> <<0, 3>>, nm |-> 1],
             [start |-> geo.ns - 1, cons |-> <<0, 1>>, nm |-> 2],
             [start |-> 1, cons |-> <<>>, nm |-> 1] >>

Init == /\ st = Assemble(geo, NoWalls(geo), own, agents)
        /\ last = "init"
        /\ ate = Zeros(5)            \* what was eaten from each row since the reset

EatenRows(a, b) == [r \in DOMAIN a.feat |->
   Cardinality({s \in 1 .. geo.ns : a.feat[r][s] > 0 /\ b.feat[r][s] = 0})]

Step(i) == \E a \in Possible(st.tab, st.pos[i]) :
             \E t \in SuccSet(st.tab[st.pos[i] + 1][a + 1]) :
               LET p == StepPost(st, i, t)
                   d == EatenRows(Place(st, i, t), p)
               IN /\ st' = p /\ last' = "step"
                  /\ ate' = [r \in DOMAIN ate |-> ate[r] + d[r]]
SetPos(i) == \E s \in {0, geo.ns - 1} : st' = SetPosPost(st, i, s) /\ last' = "setpos" /\ UNCHANGED ate
Wall == \E s \in {1} : LET w == [st.walls EXCEPT ![s + 1] = 1 - @]
                       IN st' = WallsPost(st, w) /\ last' = "walls" /\ UNCHANGED ate
Reset == st' = ResetPost(st) /\ last' = "reset" /\ ate' = Zeros(5)
Next == st.n < MAXN /\ ((\E i \in AgIds(st) : Step(i) \/ SetPos(i)) \/ Wall \/ Reset)
Spec == Init /\ [][Next]_<<st, last, ate>>

Start == Assemble(geo, NoWalls(geo), own, agents)

(* --- what the specification is for ------------------------------------- *)
LayersMirror == \A i \in AgIds(st) :
   st.feat[Layer(st, i)] \in {OneHot(geo.ns, st.pos[i]), Zeros(geo.ns)}
BlankOnlyIfCaught == \A i \in AgIds(st) : st.feat[Layer(st, i)] = Zeros(geo.ns)
   => \E j \in AgIds(st) : st.tally[j][Layer(st, i)] > 0
Conserved == \A r \in 1 .. st.nf :
   Cardinality({s \in 1 .. geo.ns : st.base[r][s] > 0})
     = Cardinality({s \in 1 .. geo.ns : st.feat[r][s] > 0}) + ate[r]
Accounted == \A r \in 1 .. Len(st.feat) : ate[r] = SumSeq([i \in AgIds(st) |-> st.tally[i][r]])
OnlyEaters == \A i \in AgIds(st), r \in 1 .. Len(st.feat) :
   st.tally[i][r] > 0 => (r - 1) \in Range(st.ag[i].cons)
ResetRestores == last = "reset" =>
   [ResetPost(st) EXCEPT !.n = 0] =
   [Start EXCEPT !.walls = st.walls, !.tab = st.tab, !.n = 0] /\ st = ResetPost(st)
HistEnds == \A i \in AgIds(st) : last \in {"step", "reset"} => Len(st.hist[i]) >= 1
BaseFixed == st.base = Start.base
(* --- action properties -------------------------------------------------- *)
StepLocal == [][last' = "step" => \E i \in AgIds(st) :
     /\ \A j \in AgIds(st) \ {i} : st'.pos[j] = st.pos[j] /\ st'.hist[j] = st.hist[j] /\ st'.tally[j] = st.tally[j]
     /\ Len(st'.hist[i]) = Len(st.hist[i]) + 1
     /\ st'.hist[i][Len(st'.hist[i])] = st'.pos[i]
     /\ Touch(KIND, XOf(geo, st.pos[i]), YOf(geo, st.pos[i]), XOf(geo, st'.pos[i]), YOf(geo, st'.pos[i]))
     /\ st.walls[st.pos[i] + 1] = 0 /\ st.walls[st'.pos[i] + 1] = 0
     /\ \A r \in 1 .. st.nf, s \in States(geo) : s # st'.pos[i] => st'.feat[r][s + 1] = st.feat[r][s + 1]
   ]_<<st, last, ate>>
EatenOnce == [][\A r \in 1 .. st.nf, s \in 1 .. geo.ns :
     (st.feat[r][s] = 0 /\ last' # "reset") => st'.feat[r][s] = 0]_<<st, last, ate>>
StepCounts == [][st'.n = st.n + (IF last' = "step" THEN 1 ELSE 0)]_<<st, last, ate>>

Hidden == <<[st EXCEPT !.hist = <<>>], last, ate>>
===========================================================================
