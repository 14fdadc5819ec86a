----------------------------- MODULE TraceWorld -----------------------------
(* Judges logs of environments against World: C05-C12, and the parts of     *)
(* C03, C15 and C18 that concern a running environment.                     *)
EXTENDS World, TraceLib
VARIABLES l, st, bad
vars == <<l, st, bad>>
(* st: [w |-> <<world of environment 1, world of environment 2>>,           *)
(*      stepbad |-> clauses that failed for single steps,                   *)
(*      prebad |-> clauses that failed before any reset]                    *)

Pm == 100000
Dead == [dead |-> TRUE]
IsDead(w) == "dead" \in DOMAIN w

WF(x, p) ==    \* the projection has the shape of the world x
  /\ Len(p.pos) = NAg(x) /\ Len(p.hist) = NAg(x) /\ Len(p.tally) = NAg(x)
  /\ Len(p.feat) = Len(x.feat) /\ Len(p.walls) = x.g.ns
  /\ \A r \in DOMAIN p.feat : Len(p.feat[r]) = x.g.ns
  /\ \A i \in DOMAIN p.tally : Len(p.tally[i]) = Len(x.feat)
  /\ \A i \in DOMAIN p.pos : p.pos[i] \in States(x.g)
  /\ (p.tab # <<>> => Len(p.tab) = x.g.ns /\ \A i \in DOMAIN p.tab : Len(p.tab[i]) = x.g.na)

RowSet(q) == {<<q[k][1], q[k][2]>> : k \in DOMAIN q}
WantRow(g, q) == {<<q[k][1], q[k][2] * (Pm \div g.den)>> : k \in DOMAIN q}
TabOk(x, p) == p.tab = <<>> \/ \A i \in 1 .. x.g.ns, j \in 1 .. x.g.na :
                                 RowSet(p.tab[i][j]) = WantRow(x.g, x.tab[i][j])
Others(x, i) == AgIds(x) \ {i}

(* Component-wise comparison of the expected world x with the projection p  *)
(* of the real one, for an operation on agent i (0: none); t gives the      *)
(* properties each component speaks about.                                  *)
Diff(x, p, i, t) == Cat(<<
   Chk(i = 0 \/ p.pos[i] = x.pos[i], t.pos, "position of the agent"),
   Chk(\A j \in Others(x, i) : p.pos[j] = x.pos[j], t.opos, "position of another agent changed"),
   Chk(i = 0 \/ p.hist[i] = x.hist[i], t.hist, "position history of the agent"),
   Chk(\A j \in Others(x, i) : p.hist[j] = x.hist[j], t.ohist, "position history of another agent changed"),
   Chk(\A r \in 1 .. x.nf : p.feat[r] = x.feat[r], t.own, "the environment's features"),
   Chk(i = 0 \/ p.feat[Layer(x, i)] = x.feat[Layer(x, i)], t.lay, "the agent's own feature layer"),
   Chk(\A j \in Others(x, i) : p.feat[Layer(x, j)] = x.feat[Layer(x, j)], t.olay, "feature layer of another agent"),
   Chk(i = 0 \/ p.tally[i] = x.tally[i], t.tally, "consumption tally of the agent"),
   Chk(\A j \in Others(x, i) : p.tally[j] = x.tally[j], t.otally, "consumption tally of another agent"),
   Chk(p.n = x.n, t.n, "number of steps counted"),
   Chk(p.walls = x.walls /\ TabOk(x, p), t.top, "walls or connectivity changed") >>)

All(ps) == [pos |-> ps, opos |-> ps, hist |-> ps, ohist |-> ps, own |-> ps, lay |-> ps,
            olay |-> ps, tally |-> ps, otally |-> ps, n |-> ps, top |-> ps]
StepTags == [pos |-> <<"C05">>, opos |-> <<"C05">>, hist |-> <<"C05">>, ohist |-> <<"C05">>,
   own |-> <<"C07">>, lay |-> <<"C06">>, olay |-> <<"C06", "C07">>, tally |-> <<"C07">>,
   otally |-> <<"C07">>, n |-> <<"C05">>, top |-> <<"C05", "C03">>]
PlaceTags == [pos |-> <<"C06">>, opos |-> <<"C06">>, hist |-> <<"C06">>, ohist |-> <<"C06">>,
   own |-> <<"C06", "C07">>, lay |-> <<"C06">>, olay |-> <<"C06">>, tally |-> <<"C07">>,
   otally |-> <<"C07">>, n |-> <<"C05">>, top |-> <<"C03">>]
FitTags == [All(<<"C18">>) EXCEPT !.own = <<"C18", "C07">>, !.tally = <<"C18", "C07">>, !.otally = <<"C18", "C07">>]
EatTags == [All(<<"C07">>) EXCEPT !.pos = <<"C05">>, !.opos = <<"C05">>, !.top = <<"C03">>, !.n = <<"C05">>]
(* For runs of several steps: what concerns consumption and layers is a     *)
(* fault of the run only if single steps get it right.                      *)
RunTags(clean) == LET c == IF clean THEN <<"C09">> ELSE <<>> IN
  [All(<<"C09">>) EXCEPT !.own = <<"C07">> \o c, !.lay = <<"C06">> \o c, !.olay = <<"C06", "C07">> \o c,
                         !.tally = <<"C07">> \o c, !.otally = <<"C07">> \o c]

(* Values of other agents are not touched: qs lists the agents whose action *)
(* values changed during the operation.                                     *)
QOnly(e, S) == \A k \in DOMAIN e.post.qs : e.post.qs[k] \in S

(* nopol: no policy since the last reset *)
NoPol(x, b) == [nopol |-> [i \in AgIds(x) |-> b]] @@ x
Sync(x, p) == [x EXCEPT !.pos = p.pos, !.hist = p.hist, !.tally = p.tally, !.feat = p.feat, !.n = p.n,
                        !.nopol = [i \in AgIds(x) |-> @[i] /\ p.pol[i] = 0]]

---------------------------------------------------------------------------
(* One step of agent i, as logged: position entered t, action of the policy *)
(* a (-9: not observed).                                                    *)
MoveClauses(x, i, t, a, ps) ==
  LET s == x.pos[i]
      sel == x.ag[i].sel
      acts == PolicyActions(x.q[i][s + 1], sel)
      succ(b) == SuccSet(x.tab[s + 1][b + 1])
  IN Cat(<<
     Chk(x.walls[s + 1] = 0 /\ x.walls[t + 1] = 0, <<"C03">> \o ps, "an agent entered or left a walled state"),
     Chk(\E b \in Actions(x.g) : t \in succ(b), ps, "the move is not possible in the MDP"),
     Chk(\E b \in acts : t \in succ(b), ps, "the move is not one the agent's policy can make"),
     Chk(a = -9 \/ a \in acts, ps, "the policy action is not a best or possible one"),
     Chk(a = -9 \/ a \notin Actions(x.g) \/ t \in succ(a), ps, "the move is not the one of the agent's current policy") >>)

CanFail(x, i) ==   \* the policy may give an action that is not possible
  ~x.fit[i] \/ LET s == x.pos[i]
                   acts == PolicyActions(x.q[i][s + 1], x.ag[i].sel)
               IN acts = {} \/ \E b \in acts : x.tab[s + 1][b + 1] = <<>>

JStep(x, e) ==
  LET i == e.ag
      p == e.post
      same == Diff(x, p, i, All(<<"C05">>))
  IN IF e.exc # ""
     THEN [x |-> x, cs |-> same \o Chk(CanFail(x, i), <<"C05">>, "a possible step was refused")]
     ELSE IF ~x.fit[i] THEN [x |-> Sync(x, p), cs |-> Chk(FALSE, <<"C05">>, "an agent that was never fitted was stepped")]
     ELSE LET t == p.pos[i]
              y == StepPost(x, i, t)
              outside == \A r \in 1 .. x.nf, s \in States(x.g) :
                            s # t => p.feat[r][s + 1] = x.feat[r][s + 1]
          IN [x |-> Sync(y, p),
              cs |-> MoveClauses(x, i, t, e.pi, <<"C05">>) \o Diff(y, p, i, StepTags)
                     \o Chk(e.ret = t, <<"C05">>, "the returned position")
                     \o Chk(outside, <<"C05", "C07">>, "features of a state not entered changed")
                     \o Chk(QOnly(e, {}), <<"C05", "C18">>, "action values changed during a step")]

---------------------------------------------------------------------------
(* Runs of several steps. *)
Order(x, i) == <<i>> \o SelectSeq([k \in 1 .. NAg(x) |-> k], LAMBDA k : k # i)

(* r: [x, cs, used (moves taken from the path), fused (fits), done, caught] *)
RECURSIVE TurnRun(_, _, _, _, _, _, _, _, _, _, _)
TurnRun(r, i, n, k, path, fits, steps, plan, turns, refit, stop) ==
  IF k >= n \/ r.done THEN r
  ELSE LET ord == Order(r.x, i)
           want == [j \in 1 .. NAg(r.x) |-> Alloc(IF j = 1 THEN k ELSE 0, turns, steps[j], plan[j])]
           havefit == r.fused < Len(fits)
           f == fits[r.fused + 1]
           x1 == IF refit /\ havefit /\ f.ag = i
                 THEN [r.x EXCEPT !.q[i] = f.q, !.fit[i] = TRUE] ELSE r.x
           fcs == IF ~refit THEN <<>>
                  ELSE IF ~havefit \/ f.ag # i THEN Chk(FALSE, <<"C09", "C10">>, "no refit of the mover before a step")
                  ELSE Chk(f.pos = r.x.pos[i], <<"C10", "C09">>, "a refit was given another position than the mover's current one")
                       \o Chk(f.rf = r.x.ag[i].rf, <<"C10">>, "a refit was given another reward function")
                       \o Chk(f.nm = want, <<"C10">>, "planning moves are not allocated to turns as documented")
                       \o Chk(f.feat = r.x.feat, <<"C09">>, "a refit did not see the current features")
       IN IF r.used[i] >= Len(path[i])
          THEN [r EXCEPT !.x = x1, !.cs = @ \o fcs, !.done = TRUE, !.short = TRUE]
          ELSE IF ~x1.fit[i]
          THEN [r EXCEPT !.cs = @ \o fcs \o Chk(FALSE, <<"C05", "C09">>, "an agent that was never fitted was stepped"), !.done = TRUE]
          ELSE LET t == path[i][r.used[i] + 1]
                   ok == t \in States(x1.g)
                   mcs == IF ok THEN MoveClauses(x1, i, t, -9, <<"C05", "C09">>)
                          ELSE Chk(FALSE, <<"C05", "C09">>, "position out of range")
                   y == IF ok THEN StepPost(x1, i, t) ELSE x1
                   c == Catches(y, i)
                   r2 == [r EXCEPT !.x = y, !.cs = @ \o fcs \o mcs, !.used[i] = @ + 1,
                                   !.fused = @ + (IF refit /\ havefit THEN 1 ELSE 0),
                                   !.caught = c /\ stop, !.done = c /\ stop]
               IN TurnRun(r2, i, n, k + 1, path, fits, steps, plan, turns, refit, stop)

R0(x) == [x |-> x, cs |-> <<>>, used |-> Zeros(NAg(x)), fused |-> 0, done |-> FALSE,
          caught |-> FALSE, short |-> FALSE]
Paths(x, p) == [i \in AgIds(x) |-> SubSeq(p.hist[i], Len(x.hist[i]) + 1, Len(p.hist[i]))]
PrefixOk(x, p) == \A i \in AgIds(x) : /\ Len(p.hist[i]) >= Len(x.hist[i])
                                      /\ SubSeq(p.hist[i], 1, Len(x.hist[i])) = x.hist[i]
BadPlan(x, e) == e.planned = 1 /\ (Len(e.plan) # NAg(x) \/ \E k \in DOMAIN e.plan : e.plan[k] <= 0)
NmOrder(x, i) == [k \in 1 .. NAg(x) |-> x.ag[Order(x, i)[k]].nm]

JMulti(x, e, clean) ==
  LET i == e.ag
      p == e.post
      n == IF e.nsk = "none" THEN x.ag[i].nm ELSE e.ns[1]
      steps == IF e.nsk = "list" THEN e.ns ELSE [k \in 1 .. NAg(x) |-> IF k = 1 THEN n ELSE NmOrder(x, i)[k]]
      plan == IF e.planned = 1 THEN e.plan ELSE NmOrder(x, i)
      path == Paths(x, p)
      r == TurnRun(R0(x), i, n, 0, path, e.fits, steps, plan, e.turns, e.refit = 1, e.stop = 1)
      full == r.used[i]
  IN IF BadPlan(x, e)
     THEN [x |-> x, cs |-> Chk(e.exc # "", <<"C10">>, "an ill-formed planning budget was accepted")
                          \o (IF e.exc # "" THEN Diff(x, p, i, All(<<"C09">>)) ELSE <<>>)]
     ELSE IF ~PrefixOk(x, p) THEN [x |-> Sync(x, p), cs |-> Chk(FALSE, <<"C05", "C09">>, "earlier history was rewritten")]
     ELSE IF e.exc # ""
     THEN [x |-> Sync(r.x, p), cs |-> r.cs \o Chk(r.short /\ CanFail(r.x, i), <<"C09", "C10">>, "a possible run was refused")]
     ELSE [x |-> Sync(r.x, p),
           cs |-> r.cs \o Diff(r.x, p, i, RunTags(clean))
            \o Chk(r.caught \/ full = n, <<"C09">>, "the run ended early, without a catch")
            \o Chk(full = Len(path[i]), <<"C09">>, "the run went on after a catch, or further than asked")
            \o Chk(IF r.caught THEN e.retk = "false" ELSE e.retk = "list" /\ e.ret = path[i],
                   <<"C09">>, "the returned path")
            \o Chk(r.fused = Len(e.fits), <<"C09">>, "number of refits")
            \o Chk(QOnly(e, IF e.refit = 1 THEN {i} ELSE {}), <<"C18", "C09">>, "action values of another agent changed")]

RECURSIVE InterRun(_, _, _, _, _, _)
InterRun(r, e, path, nmoves, t, k) ==      \* turn t, k-th agent of the order
  IF r.done \/ t > Len(nmoves[1]) THEN r
  ELSE LET i == e.agents[k]
           n == nmoves[k][t]
           steps == [j \in 1 .. NAg(r.x) |-> IF j = 1 THEN n ELSE NmOrder(r.x, i)[j]]
           plan == IF e.planned = 1 THEN e.plan ELSE NmOrder(r.x, i)
           r2 == TurnRun(r, i, n, 0, path, e.fits, steps, plan, Len(nmoves[1]) - t + 1, e.refit = 1, e.stop = 1)
       IN IF k = Len(e.agents) THEN InterRun(r2, e, path, nmoves, t + 1, 1)
          ELSE InterRun(r2, e, path, nmoves, t, k + 1)

JInter(x, e, clean) ==
  LET p == e.post
      path == Paths(x, p)
      nmoves == IF e.nmk = 1 THEN e.nm
                ELSE [k \in 1 .. Len(e.agents) |-> [t \in 1 .. e.turns |-> x.ag[e.agents[k]].nm]]
      r == InterRun(R0(x), e, path, nmoves, 1, 1)
  IN IF BadPlan(x, e)
     THEN [x |-> x, cs |-> Chk(e.exc # "", <<"C10">>, "an ill-formed planning budget was accepted")]
     ELSE IF ~PrefixOk(x, p) THEN [x |-> Sync(x, p), cs |-> Chk(FALSE, <<"C05", "C09">>, "earlier history was rewritten")]
     ELSE IF e.exc # ""
     THEN [x |-> Sync(r.x, p),
           cs |-> r.cs \o Chk(r.short /\ \E i \in AgIds(x) : CanFail(r.x, i), <<"C09", "C10">>, "a possible run was refused")]
     ELSE [x |-> Sync(r.x, p),
           cs |-> r.cs \o Diff(r.x, p, 0, RunTags(clean))
            \o Chk(~r.short, <<"C09">>, "a turn ended early, without a catch")
            \o Chk(\A i \in AgIds(x) : r.used[i] = Len(path[i]), <<"C09">>,
                   "moves outside the turn order, after a catch, or more than asked")
            \o Chk(r.fused = Len(e.fits), <<"C09">>, "number of refits")]

---------------------------------------------------------------------------
(* Probabilistic stepping, in exact arithmetic for greedy policies.  Where   *)
(* walls removed some outcomes of an action, the others keep their relative  *)
(* weights.                                                                  *)
RECURSIVE SumOver(_, _)
SumOver(S, f) == IF S = {} THEN 0 ELSE LET a == CHOOSE a \in S : TRUE IN f[a] + SumOver(S \ {a}, f)
RowSum(q) == SumOver(DOMAIN q, [k \in DOMAIN q |-> q[k][2]])
Wt(q, t) == LET m == {k \in DOMAIN q : q[k][1] = t} IN IF m = {} THEN 0 ELSE q[CHOOSE k \in m : TRUE][2]

(* The first k decimals of num/den, as an integer. *)
RECURSIVE Digits(_, _, _)
Digits(num, den, k) == IF k = 0 THEN num \div den
                       ELSE (num \div den) * (10 ^ k) + Digits((num % den) * 10, den, k - 1)

JProba(x, e) ==
  LET i == e.ag
      w == IF e.hasp = 1 THEN e.p ELSE OneHot(x.g.ns, x.pos[i])
      tot == SumSeq(w)
      src == {s \in States(x.g) : w[s + 1] > 0}
      greedy == x.ag[i].sel = "max"
      acts(s) == PolicyActions(x.q[i][s + 1], "max")
      part == \E s \in src : \E a \in Actions(x.g) : RowSum(x.tab[s + 1][a + 1]) \notin {0, x.g.den}
      lc == IF ~part THEN x.g.den ELSE IF x.g.den <= 4 THEN 12 ELSE 2520
      rel(s, a) == IF x.tab[s + 1][a + 1] = <<>> THEN 0 ELSE lc \div RowSum(x.tab[s + 1][a + 1])
      \* expected probability of t times tot * 420 * lc (420 = lcm of 1..7)
      num(t) == SumOver(src, [s \in src |->
                  w[s + 1] * SumOver(acts(s), [a \in acts(s) |->
                       (420 \div Cardinality(acts(s))) * rel(s, a) * Wt(x.tab[s + 1][a + 1], t)])])
      den == tot * 420 * lc
      \* for softmax policies, from the policy the agent itself reports (in 1/10000)
      numS(t) == SumOver(src, [s \in src |->
                  w[s + 1] * SumOver(Actions(x.g), [a \in Actions(x.g) |->
                       e.pip[s + 1][a + 1] * Wt(x.tab[s + 1][a + 1], t)])])
      denS == tot * 10000 * x.g.den
      same == [x EXCEPT !.n = e.post.n]
  IN IF e.exc # "" THEN [x |-> x, cs |-> Chk(~x.fit[i], <<"C11">>, "a probabilistic step was refused")
                                        \o Diff(x, e.post, i, All(<<"C11">>))]
     ELSE IF ~x.fit[i] THEN [x |-> same, cs |-> Chk(FALSE, <<"C11">>, "a probabilistic step of an agent that was never fitted")]
     ELSE [x |-> same,
      cs |-> Cat(<<
        Diff(same, e.post, i, All(<<"C11">>)),
        Chk(Len(e.out) = x.g.ns, <<"C11">>, "shape of the distribution"),
        IF Len(e.out) # x.g.ns THEN <<>>
        ELSE IF greedy
        THEN Chk(\A t \in States(x.g) : Abs(e.out[t + 1] - Digits(num(t), den, 6)) <= 2,
                 <<"C11">>, "the distribution is not the push-forward of the policy")
        ELSE Chk(\A t \in States(x.g) : Abs((e.out[t + 1] \div 100) * (denS \div 10000) - numS(t)) <= (denS \div 10000) * (2 + Cardinality(src) * x.g.na),
                 <<"C11">>, "the distribution is not the push-forward of the policy"),
        Chk(e.pafter = e.p, <<"C11">>, "the starting distribution was modified") >>)]

---------------------------------------------------------------------------
Refused(e, ps, why) == Chk(e.exc # "", ps, why)

(* What the environment reports about the plan of an agent.  Probabilities   *)
(* are in 1/100000; 100000 \div n uniform over n actions.                    *)
PolicyRow(row, sel, p) ==
  LET acts == PolicyActions(row, sel)
      known == {a \in DOMAIN row : row[a] # -2}
      n == Cardinality(acts)
  IN IF known = {} THEN \A a \in DOMAIN p : p[a] = -2000000001
     ELSE /\ \A a \in DOMAIN p : p[a] \in 0 .. Pm /\ ((a - 1) \notin acts => p[a] = 0)
          /\ Abs(SumSeq(p) - Pm) <= Len(p)
          /\ IF sel = "max" \/ \A a \in DOMAIN row : row[a] < 0
             THEN \A a \in DOMAIN p : (a - 1) \in acts => Abs(n * p[a] - Pm) <= n
             ELSE \A a, b \in DOMAIN p : /\ (row[a] = row[b] => p[a] = p[b])
                                          /\ (row[a] > row[b] => p[a] >= p[b])
Query(x, e) ==
  LET i == e.ag
      sel == x.ag[i].sel
      ok == /\ Len(e.pi) = x.g.ns /\ Len(e.pip) = x.g.ns /\ \A s \in 1 .. Len(e.pip) : Len(e.pip[s]) = x.g.na
      given(s) == {a \in 1 .. x.g.na : e.pip[s][a] > 0 \/ (e.pip[s][a] = 0 /\ (a - 1) \in PolicyActions(x.q[i][s], sel))}
  IN Chk(e.h = x.hist[i], <<"C27">>, "the reported position history")
     \o (IF ~x.fit[i]
         THEN Chk(e.pi = <<>> /\ e.pip = <<>> /\ e.q = <<>>, <<"C27">>, "a plan is reported for an agent that was never fitted")
              \o Chk(e.e[2] # "" /\ e.e[3] # "", <<"C27">>, "the policy of an agent that was never fitted was not refused")
         ELSE Chk(e.q = x.q[i], <<"C27">>, "the reported action values are not those of the last fit")
              \o (IF x.nopol[i] /\ e.post.pol[i] = 0 THEN Chk(e.pi = <<>> /\ e.pip = <<>>, <<"C27", "C08">>, "a policy is reported after a reset")
                  ELSE IF ~ok THEN Chk(FALSE, <<"C27">>, "no policy, or one of the wrong shape, is reported for a fitted agent")
                  ELSE Chk(\A s \in 1 .. x.g.ns : PolicyRow(x.q[i][s], sel, e.pip[s]), <<"C27">>,
                           "the reported action probabilities do not follow from the action values")
                       \o Chk(e.pip = e.sel, <<"C27">>, "the reported action probabilities are not those of the agent's action selector")
                       \o Chk(\A s \in 1 .. x.g.ns : IF \A a \in 1 .. x.g.na : x.q[i][s][a] = -2 THEN e.pi[s] = -1
                                                     ELSE (e.pi[s] + 1) \in given(s), <<"C27">>,
                              "the reported policy chooses an action of probability zero")))

JOther(x, e) ==
  LET p == e.post IN
  CASE e.op = "setpos" -> LET y == SetPosPost(x, e.ag, e.s) IN
         IF e.exc # "" THEN [x |-> x, cs |-> Chk(FALSE, <<"C06">>, "a legal placement was refused")]
         ELSE [x |-> Sync(y, p), cs |-> Diff(y, p, e.ag, PlaceTags)]
    [] e.op = "badpos" -> [x |-> Sync(x, p),
         cs |-> Chk(e.exc = "ValueError", <<"C06">>, "a position outside the state space was not refused with ValueError")
                \o Diff(x, p, e.ag, All(<<"C06">>))]
    [] e.op = "badname" -> [x |-> Sync(x, p),
         cs |-> Refused(e, <<"C05">>, "an unknown agent was accepted") \o Diff(x, p, 0, All(<<"C05">>))]
    [] e.op = "reset" -> LET y == NoPol(ResetPost(x), TRUE) IN
         IF e.exc # "" THEN [x |-> x, cs |-> Chk(FALSE, <<"C08">>, "reset failed")]
         ELSE [x |-> Sync([y EXCEPT !.n = p.n], p), cs |-> Diff([y EXCEPT !.n = p.n], p, 0, All(<<"C08">>))
                 \o Chk(\A i \in DOMAIN p.pol : p.pol[i] = 0, <<"C08">>, "a policy survived the reset")]
    [] e.op = "fit" ->
         IF e.exc # "" THEN [x |-> x, cs |-> Chk(FALSE, <<"C18", "C15">>, "fitting failed")]
         ELSE LET y == [x EXCEPT !.fit[e.ag] = TRUE, !.q[e.ag] = e.q] IN
              [x |-> Sync(y, p),
               cs |-> Diff(x, p, e.ag, FitTags)
                      \o Chk(QOnly(e, {e.ag}), <<"C18">>, "fitting changed the action values of another agent")
                      \o Chk(\A j \in Others(x, e.ag) : p.polh[j] = e.polbefore[j], <<"C18">>, "fitting changed the policy of another agent")
                      \o Chk(e.given = <<>> \/ e.given[1] = e.q, <<"C27">>, "the action values are not those the planner returned")
                      \o Chk(e.null = 0 \/ e.q = [s \in 1 .. x.g.ns |-> [a \in 1 .. x.g.na |-> IF x.tab[s][a] = <<>> THEN -1 ELSE 0]],
                             <<"C27">>, "the null planner does not value all possible moves alike")
                      \o Chk(e.rfsame = 1, <<"C18">>, "fitting changed a reward function")]
    [] e.op = "badfit" -> [x |-> Sync(x, p),
         cs |-> Refused(e, <<"C27">>, "a plan that is not a table of action values was accepted (" \o e.how \o ")")
                \o Diff(x, p, e.ag, FitTags)
                \o Chk(QOnly(e, {}), <<"C27">>, "a failed fit replaced the action values")]
    [] e.op = "query" -> [x |-> Sync(x, p), cs |-> Diff(x, p, e.ag, All(<<"C27">>)) \o Query(x, e)]
    [] e.op = "walls" -> LET y == WallsPost(x, e.w) IN
         IF e.exc # "" THEN [x |-> x, cs |-> Chk(FALSE, <<"C03">>, "a legal wall edit was refused")]
         ELSE [x |-> Sync(y, p), cs |-> Diff(y, p, 0, All(<<"C03">>))]
    [] e.op = "addxy" -> LET y == WallsPost(x, AddXY(x.g, x.walls, e.x, e.y)) IN
         IF e.exc # "" THEN [x |-> x, cs |-> Chk(FALSE, <<"C03">>, "a legal wall edit was refused")]
         ELSE [x |-> Sync(y, p), cs |-> Diff(y, p, 0, All(<<"C03">>))]
    [] e.op = "clearw" -> LET y == WallsPost(x, NoWalls(x.g)) IN
         IF e.exc # "" THEN [x |-> x, cs |-> Chk(FALSE, <<"C03">>, "clearing the walls was refused")]
         ELSE [x |-> Sync(y, p), cs |-> Diff(y, p, 0, All(<<"C03">>))]
    [] e.op = "badw" -> [x |-> Sync(x, p),
         cs |-> Refused(e, <<"C03">>, "an invalid wall specification was accepted") \o Diff(x, p, 0, All(<<"C03">>))]
    [] e.op = "eat" -> LET fs == Range(e.fs)
                           y == EatPost(x, fs, e.s) IN
         IF e.exc # "" THEN [x |-> x, cs |-> Chk(FALSE, <<"C07">>, "consumption failed")]
         ELSE [x |-> Sync(y, p), cs |-> Diff(y, p, 0, EatTags)
                 \o Chk(e.ret = [r \in DOMAIN x.feat |-> IF (r - 1) \in Eaten(x, fs, e.s) THEN 1 ELSE 0],
                        <<"C07">>, "the reported number of consumed features")]
    [] e.op = "rewrap" -> LET y == NoPol(RewrapPost(x, e.agents), FALSE) IN
         IF e.exc # "" THEN [x |-> Dead, cs |-> Chk(FALSE, <<"C12">>, "a legal environment was refused")]
         ELSE IF ~WF(y, p) THEN [x |-> Dead, cs |-> Chk(FALSE, <<"C12">>, "malformed environment on a re-used MDP")]
         ELSE [x |-> Sync(y, p), cs |-> Diff(y, p, 0, All(<<"C12">>))
                 \o Chk(p.nag = NAg(y) /\ p.nft = Len(y.feat), <<"C12">>, "number of agents or features")]

JNew(e) ==
  LET x == NoPol(Assemble(e.g, e.walls, e.own, e.agents), FALSE) IN
  IF e.exc # "" THEN [x |-> Dead, cs |-> Chk(FALSE, <<"C12">>, "a legal environment was refused")]
  ELSE IF ~WF(x, e.post) THEN [x |-> Dead, cs |-> Chk(FALSE, <<"C12">>, "malformed environment")]
  ELSE [x |-> Sync(x, e.post),
        cs |-> Diff(x, e.post, 0, All(<<"C12">>))
          \o Chk(e.ownafter = e.own /\ e.wafter = e.warg /\ e.rfafter = [i \in DOMAIN e.agents |-> e.agents[i].rf],
                 <<"C12">>, "creating an environment modified the caller's arrays")
          \o Chk(\A i \in AgIds(x) : e.got[i].nm = x.ag[i].nm /\ e.got[i].rf = x.ag[i].rf
                      /\ e.got[i].cons = x.ag[i].cons /\ e.got[i].idx = i - 1
                      /\ e.got[i].fidx = x.nf + i - 1 /\ e.got[i].name = e.names[i],
                 <<"C12">>, "an agent was attached with other parameters than given")
          \o Chk(e.post.nag = NAg(x) /\ e.post.nft = Len(x.feat), <<"C12">>, "number of agents or features")]

(* --- one line ------------------------------------------------------------ *)
Stateless == {"alloc", "badnew", "malformed", "arrays"}
JStateless(e) ==
  CASE e.op = "alloc" ->
         IF e.k >= e.m THEN <<>>
         ELSE IF e.exc # "" THEN Chk(FALSE, <<"C10">>, "a legal allocation was refused")
         ELSE Chk(e.out = Alloc(e.k, e.t, e.m, e.p), <<"C10">>, "planning moves are not allocated to turns as documented")
    [] e.op = "badnew" -> Refused(e, <<"C12">>, "an ill-formed environment or MDP was accepted: " \o e.what)
    [] e.op = "arrays" -> Chk(e.same = 1, <<"C12">>, "arrays given at construction were modified later")
    [] e.op = "malformed" -> Chk(FALSE, <<"C03", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C18", "C27">>, e.what)

Judge(s, e) ==
  LET w == s.w[e.i]
      clean == s.stepbad = {} IN
  IF e.op = "new" THEN JNew(e)
  ELSE IF IsDead(w) THEN [x |-> w, cs |-> <<>>]
  ELSE IF e.op # "rewrap" /\ ~WF(w, e.post)
       THEN [x |-> Dead, cs |-> Chk(FALSE, CASE e.op = "reset" -> <<"C08", "C12">>
                [] e.op = "fit" -> <<"C18">> [] e.op \in {"multi", "inter"} -> <<"C09">>
                [] e.op \in {"walls", "addxy", "clearw", "badw"} -> <<"C03">>
                [] OTHER -> <<"C05", "C06", "C07">>, "malformed world after " \o e.op)]
  ELSE CASE e.op = "step" -> JStep(w, e)
         [] e.op = "multi" -> JMulti(w, e, clean)
         [] e.op = "inter" -> JInter(w, e, clean)
         [] e.op = "proba" -> JProba(w, e)
         [] OTHER -> JOther(w, e)

(* A clause that fails only after a reset also speaks about the reset. *)
LaterEpisode(s, e, cs) ==
  IF e.epi = 0 \/ e.op \in {"new", "reset", "rewrap", "walls", "addxy", "clearw", "badw"} THEN cs
  ELSE [k \in DOMAIN cs |-> IF cs[k].why \in s.prebad THEN cs[k] ELSE [cs[k] EXCEPT !.p = @ \o <<"C08">>]]

Init == l = 1 /\ st = [w |-> <<Dead, Dead>>, stepbad |-> {}, prebad |-> {}] /\ bad = <<>>
Step ==
  /\ l <= Len(Log)
  /\ LET e == Log[l] IN
     IF e.op \in Stateless
     THEN /\ bad' = AddBad(bad, Tag(l, e.id, JStateless(e))) /\ UNCHANGED st
     ELSE LET r == Judge(st, e)
              why == {r.cs[k].why : k \in DOMAIN r.cs} IN
          /\ st' = [w |-> [st.w EXCEPT ![e.i] = r.x],
                    stepbad |-> IF e.op = "step" THEN st.stepbad \cup why ELSE st.stepbad,
                    prebad |-> IF e.epi = 0 THEN st.prebad \cup why ELSE st.prebad]
          /\ bad' = AddBad(bad, Tag(l, e.id, LaterEpisode(st, e, r.cs)))
  /\ l' = l + 1
Finish == /\ l = Len(Log) + 1
          /\ WriteVerdict(bad, 0)
          /\ l' = l + 1 /\ UNCHANGED <<st, bad>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
===========================================================================
