------------------------------- MODULE World -------------------------------
(* The environment state machine of multi_agent_mdp: agents on a common    *)
(* MDP, moving, consuming, being placed, planned for and reset.            *)
(*                                                                         *)
(* Operators of the form XxxPost(st, args) give the state after an         *)
(* operation; they are used both by the design model (MCWorld), which      *)
(* explores all interleavings, and by the trace specification              *)
(* (TraceWorld), which compares them with what the real code did.          *)
(*                                                                         *)
(* st is a record                                                          *)
(*   g      geometry (Grid)             walls  0/1 per state               *)
(*   tab    successor table of g under walls                               *)
(*   nf     number of the environment's own features                       *)
(*   ag     agents: << [start, cons, nm], ... >>; cons = consumed feature  *)
(*          indices (0-based; nf-1+i is the layer of the i-th agent)       *)
(*   feat   feature matrix feat[f+1][s+1], own features then agent layers  *)
(*   base   the matrix that a reset restores                               *)
(*   pos, hist, tally   per agent                                          *)
(*   n      number of steps made                                           *)
(*   fit    per agent: has been planned for;  q: its action-value ranks    *)
EXTENDS Grid

NAg(st) == Len(st.ag)
AgIds(st) == 1 .. Len(st.ag)
Layer(st, i) == st.nf + i                  \* row (1-based) of agent i's layer
OneHot(ns, s) == [k \in 1 .. ns |-> IF k = s + 1 THEN 1 ELSE 0]
Zeros(n) == [k \in 1 .. n |-> 0]

(* A fresh environment: own features followed by one layer per agent.      *)
Assemble(g, walls, own, ag) ==
  LET nf == Len(own)
      feat == own \o [i \in 1 .. Len(ag) |-> OneHot(g.ns, ag[i].start)]
  IN [g |-> g, walls |-> walls, tab |-> SuccTab(g, walls), nf |-> nf, ag |-> ag,
      feat |-> feat, base |-> feat,
      pos |-> [i \in 1 .. Len(ag) |-> ag[i].start],
      hist |-> [i \in 1 .. Len(ag) |-> <<ag[i].start>>],
      tally |-> [i \in 1 .. Len(ag) |-> Zeros(nf + Len(ag))],
      n |-> 0,
      fit |-> [i \in 1 .. Len(ag) |-> FALSE],
      q |-> [i \in 1 .. Len(ag) |-> <<>>]]

Place(st, i, s) == [st EXCEPT !.pos[i] = s, !.feat[Layer(st, i)] = OneHot(st.g.ns, s)]

(* What agent i eats in state s: features it consumes that are present.    *)
Eaten(st, cons, s) == {f \in cons : st.feat[f + 1][s + 1] > 0}
EatFrom(feat, eaten, s) ==
  [r \in DOMAIN feat |-> IF (r - 1) \in eaten THEN [feat[r] EXCEPT ![s + 1] = 0] ELSE feat[r]]
Consume(st, i) ==
  LET e == Eaten(st, Range(st.ag[i].cons), st.pos[i])
  IN [st EXCEPT !.feat = EatFrom(@, e, st.pos[i]),
                !.tally[i] = [r \in DOMAIN @ |-> IF (r - 1) \in e THEN @[r] + 1 ELSE @[r]]]

(* One step of agent i into state t. *)
StepPost(st, i, t) ==
  LET moved == [Place(st, i, t) EXCEPT !.hist[i] = Append(@, t), !.n = @ + 1]
  IN Consume(moved, i)

(* Eating directly from the MDP, without an agent. *)
EatPost(st, fs, s) == [st EXCEPT !.feat = EatFrom(@, Eaten(st, fs, s), s)]

SetPosPost(st, i, s) == Place(st, i, s)
WallsPost(st, w) == [st EXCEPT !.walls = w, !.tab = SuccTab(st.g, w)]
ResetPost(st) ==
  [st EXCEPT !.feat = st.base,
             !.pos = [i \in AgIds(st) |-> st.ag[i].start],
             !.hist = [i \in AgIds(st) |-> <<st.ag[i].start>>],
             !.tally = [i \in AgIds(st) |-> Zeros(Len(st.feat))]]
(* A new environment on the same MDP: own features and walls as they are.  *)
RewrapPost(st, ag) == Assemble(st.g, st.walls, SubSeq(st.feat, 1, st.nf), ag)

(* The mover sits on an agent whose layer it consumes. *)
Catches(st, i) ==
  \E j \in AgIds(st) : st.pos[j] = st.pos[i] /\ (st.nf + j - 1) \in Range(st.ag[i].cons)

(* Actions the policy of agent i may give in its state: "max" picks among  *)
(* the highest ranks (-1 is -inf, -2 unknown), "softmax" any known action. *)
PolicyActions(row, sel) ==
  LET known == {a \in 0 .. (Len(row) - 1) : row[a + 1] # -2}
      finite == {a \in known : row[a + 1] >= 0}
      top == {a \in known : \A b \in known : row[b + 1] <= row[a + 1]}
  IN IF known = {} THEN {}
     ELSE IF finite = {} THEN 0 .. (Len(row) - 1)   \* nothing to choose between
     ELSE IF sel = "max" THEN top ELSE finite

---------------------------------------------------------------------------
(* Planning budgets: moves k, k+1, ..., k+p-1 of turns of m moves, t turns. *)
Alloc(k, t, m, p) ==
  [i \in 1 .. t |-> Max2(0, Min2(k + p, i * m) - Max2(k, (i - 1) * m))]
===========================================================================
