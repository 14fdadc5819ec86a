---------------------------- MODULE TraceSearch ----------------------------
(* Judges logs of tree-search fits against Search: every playout is re-run  *)
(* in the specification from the states the code says it visited (C16),     *)
(* the totals, counts, selections and reported values are recomputed        *)
(* (C17), and the world around the fit must be untouched (C18).             *)
EXTENDS Search, TraceLib, LnTab
VARIABLES l, bad, tal
vars == <<l, bad, tal>>

VS == 10000                      \* scale of values in upper confidence bounds
GS == 100000                     \* scale of opponents' values
Eps == 10                        \* slack, in units of GS, for opponents' greediness
ColdEps == 6000                  \* a softmax at temperature 1/500 does not go this far below the best

RECURSIVE Isqrt(_, _, _)
Isqrt(x, lo, hi) ==              \* largest r in lo..hi with r*r <= x
  IF lo = hi THEN lo
  ELSE LET m == (lo + hi + 1) \div 2 IN IF m <= x \div m THEN Isqrt(x, m, hi) ELSE Isqrt(x, lo, m - 1)
Sqrt(x) == IF x <= 0 THEN 0 ELSE Isqrt(x, 0, 46340)

(* Upper confidence bound of state s from a node visited nn times, times VS. *)
(* C is given in quarters, V in units of 1/rs.                               *)
Ucb(V, N, s, nn, c4, rs) ==
  LET n1 == 1 + N[s + 1]
      mean == (V[s + 1] * (VS \div rs)) \div n1
      x == (2 * Ln[Max2(nn, 1)]) \div n1            \* scale 10^8
  IN mean + (c4 * Sqrt(x)) \div 4

(* a: [p, vis, oth (moves used per opponent), expand, V, N, memo, cs, stop] *)
(* st: for random choices, how often an option of interest was taken less     *)
(* how often it should have been (S), and the variance of that (V), times    *)
(* 1000; per kind of choice.                                                 *)
Tally(st, kind, hit, k, n) ==    \* k of the n equally likely options are of interest
  IF k = n \/ k = 0 THEN st
  ELSE [st EXCEPT ![kind].S = @ + (IF hit THEN 1000 ELSE 0) - (1000 * k) \div n,
                  ![kind].V = @ + (1000 * k * (n - k)) \div (n * n)]
Fair(x) == Abs(x.S) <= 6 * Sqrt(1000 * Min2(x.V, 2000000)) + 6000
St0 == [k \in {"first", "rich", "opp", "opp1"} |-> [S |-> 0, V |-> 0]]
Distinct(c, s) ==                \* different moves from s lead to different states
  Cardinality(Reach1(c.tab, s)) = Cardinality({j \in DOMAIN c.tab[s + 1] : c.tab[s + 1][j] # <<>>})
(* How simulated opponents choose. *)
Mode(e) == IF e.method = "random" THEN "uniform"
           ELSE IF e.sel = "max" \/ e.temp = 0 THEN "greedy"
           ELSE IF e.temp <= 2 THEN "cold" ELSE IF e.temp >= 1000000 THEN "uniform" ELSE "any"

Fail(a, ps, why) == [a EXCEPT !.cs = @ \o Chk(FALSE, ps, why), !.stop = TRUE]

OppBest(c, e, a, j) ==
  \* memoised optimal values of opponent j for the simulated rewards
  LET rew == [s \in 1 .. c.ns |-> SumF(LAMBDA r : c.rf[j][r] * a.p.feat[r][s], 1, Len(a.p.feat)) * (GS \div e.rs)]
      key == <<rew>>
  IN IF key \in DOMAIN a.memo THEN [v |-> a.memo[key], key |-> key, rew |-> rew]
     ELSE [v |-> Solve(40, c.tab, rew, 1, 2, 1), key |-> key, rew |-> rew]

GreedyProps(e) == IF e.caching = 1 THEN <<"C16", "C18">> ELSE <<"C16">>

RECURSIVE Run(_, _, _, _, _)
Run(c, e, a, it, k) ==           \* k slots of playout it are done
  IF a.stop \/ k >= Len(c.slots) \/ a.p.over THEN a
  ELSE LET m == IF e.inter = 1 THEN Meet(c, a.p) ELSE a.p
           j == c.slots[k + 1] IN
       IF m.over \/ ~m.act[j] THEN Run(c, e, [a EXCEPT !.p = m], it, k + 1)
       ELSE IF j = 1
       THEN IF a.vis >= Len(e.visited[it]) THEN Fail(a, <<"C16">>, "a playout ended before the planned moves were used up")
            ELSE LET t == e.visited[it][a.vis + 1]
                     from == m.node[1]
                     nx == Next1(c, m, 1)
                     fresh == {s \in nx : a.N[s + 1] = 0}
                     u(s) == Ucb(a.V, a.N, s, a.N[from + 1], e.c4, e.rs)
                     tol == 8 + 4 * e.c4
                     free == ~a.expand /\ Distinct(c, from)
                     val(s) == SumF(LAMBDA r : c.rf[1][r] * m.feat[r][s + 1], 1, Len(m.feat))
                     rich == {s \in nx : \A s2 \in nx : val(s2) <= val(s)}
                 IN IF t \notin nx THEN Fail(a, <<"C16">>, "the planning agent made a move that is not possible")
                    ELSE IF a.expand /\ fresh # {} /\ t \notin fresh
                    THEN Fail(a, <<"C17">>, "an already visited successor was chosen although an unvisited one exists")
                    ELSE IF a.expand /\ fresh = {} /\ \E s \in nx : u(s) > u(t) + tol
                    THEN Fail(a, <<"C17">>, "the successor chosen does not maximise the upper confidence bound")
                    ELSE Run(c, e, [a EXCEPT !.p = MoveTo(c, m, 1, t), !.vis = @ + 1,
                                             !.st = IF free THEN Tally(Tally(@, "first", t = SetMin(nx), 1, Cardinality(nx)),
                                                                       "rich", t \in rich, Cardinality(rich), Cardinality(nx))
                                                    ELSE @,
                                             !.expand = @ /\ fresh = {}], it, k + 1)
       ELSE IF a.oth[j - 1] >= Len(e.others[it][j - 1])
       THEN Fail(a, <<"C16">>, "a simulated opponent made fewer moves than planned, without having been caught")
       ELSE LET t == e.others[it][j - 1][a.oth[j - 1] + 1]
                nx == Next1(c, m, j)
                mode == Mode(e)
                greedy == mode \in {"greedy", "cold"}
                b == OppBest(c, e, [a EXCEPT !.p = m], j)
                best == NearBest(c.tab, b.rew, b.v, 1, 2, 1, m.node[j], IF mode = "cold" THEN ColdEps ELSE Eps)
                good == UNION {SuccSet(c.tab[m.node[j] + 1][x]) : x \in best}
                a2 == [a EXCEPT !.p = MoveTo(c, m, j, t), !.oth[j - 1] = @ + 1,
                                !.st = IF mode = "uniform" /\ Distinct(c, m.node[j])
                                       THEN Tally(Tally(@, "opp", t \in good, Cardinality(good), Cardinality(nx)),
                                                  "opp1", t = SetMin(nx), 1, Cardinality(nx)) ELSE @,
                                !.memo = IF mode # "any" /\ b.key \notin DOMAIN @ THEN @ @@ (b.key :> b.v) ELSE @]
            IN IF t \notin nx THEN Fail(a, <<"C16">>, "a simulated opponent made a move that is not possible")
               ELSE IF greedy /\ t \notin good
               THEN Fail(a, GreedyProps(e), "a simulated opponent did not move greedily for the simulated situation"
                              \o (IF e.caching = 1 THEN " (with caching)" ELSE ""))
               ELSE Run(c, e, a2, it, k + 1)

CountIn(q, s) == Cardinality({i \in DOMAIN q : q[i] = s})
RECURSIVE Iter(_, _, _, _)
Iter(c, e, a, it) ==
  IF a.stop \/ it > Len(e.visited) THEN a
  ELSE LET r == Run(c, e, [a EXCEPT !.p = P0(c), !.vis = 0, !.oth = [j \in 1 .. (NA(c) - 1) |-> 0],
                                    !.expand = TRUE], it, 0)
           vis == e.visited[it]
           r2 == [r EXCEPT !.V = [s \in DOMAIN @ |-> @[s] + CountIn(vis, s - 1) * r.p.acc],
                           !.N = [s \in DOMAIN @ |-> @[s] + CountIn(vis, s - 1)]]
       IN IF r.stop THEN r
          ELSE IF r.vis # Len(vis)
          THEN Fail(r, <<"C16">>, "the planning agent moved on after the planned moves or after having been caught")
          ELSE IF \E j \in 1 .. (NA(c) - 1) : r.oth[j] # Len(e.others[it][j])
          THEN Fail(r, <<"C16">>, "a simulated opponent moved more often than planned or after having been caught")
          ELSE Iter(c, e, r2, it + 1)

CeilDiv(a, b) == (a + b - 1) \div b
AllocT(k, t, m, n) == [i \in 1 .. t |-> Max2(0, Min2(k + n, i * m) - Max2(k, (i - 1) * m))]
Moves(e) ==     \* mover first
  IF e.given = 1 THEN e.nmoves
  ELSE LET t == CeilDiv(e.nsteps, e.agents[1].nm) IN
       [j \in 1 .. Len(e.agents) |->
          IF j = 1 THEN AllocT(0, t, e.agents[1].nm, e.nsteps) ELSE [i \in 1 .. t |-> e.agents[j].nm]]

Sit(e) ==
  LET ags == IF e.inter = 1 THEN e.agents ELSE <<e.agents[1]>>
      mv == Moves(e) IN
  [tab |-> SuccTab(e.g, e.walls), ns |-> e.g.ns,
   node |-> [j \in DOMAIN ags |-> ags[j].pos], lay |-> [j \in DOMAIN ags |-> ags[j].lay + 1],
   cons |-> [j \in DOMAIN ags |-> Range(ags[j].cons)], rf |-> [j \in DOMAIN ags |-> ags[j].rf],
   cost |-> e.cost * e.rs, feat |-> e.feat,
   slots |-> Slots([j \in DOMAIN ags |-> mv[j]])]

WellFormed(c, e) ==
  /\ Len(e.V) = c.ns /\ Len(e.N) = c.ns
  /\ Len(e.visited) = e.niter
  /\ (NA(c) > 1 => Len(e.others) = e.niter)
  /\ \A i \in DOMAIN e.visited : \A k \in DOMAIN e.visited[i] : e.visited[i][k] \in 0 .. (c.ns - 1)
  /\ (NA(c) > 1 => \A i \in DOMAIN e.others : Len(e.others[i]) = NA(c) - 1
        /\ \A j \in DOMAIN e.others[i] : \A k \in DOMAIN e.others[i][j] : e.others[i][j][k] \in 0 .. (c.ns - 1))

NoQ == -2000000001
QClauses(c, e) ==       \* reported values: total over one plus count of the successor
  LET pos == e.agents[1].pos
      row == e.q
      ok(j) == IF c.tab[pos + 1][j] = <<>> THEN row[j] = NoQ
               ELSE LET t == c.tab[pos + 1][j][1][1] IN
                    row[j] # NoQ /\
                    Abs(row[j] * (1 + e.N[t + 1]) - e.V[t + 1] * (VS \div e.rs)) <= 1 + e.N[t + 1]
  IN Chk(Len(row) = e.g.na /\ \A j \in 1 .. e.g.na : ok(j), <<"C17">>, "the reported action values are not total over one plus count")
     \o Chk(e.restnan = 1, <<"C17">>, "an action value was reported for a state that was not planned for")
     \o Chk(e.values = e.V, <<"C17">>, "the reported state values are not the totals")

Same(e) == Chk(e.pre = e.postw, <<"C18">>, "planning changed the world, a reward function or another agent")

(* The verdict on an event, and the tallies of random choices carried on to   *)
(* the next event of the same scenario.                                      *)
J(cs, s) == [cs |-> cs, st |-> s]
Judge(e, s0) ==
  CASE e.op = "malformed" -> J(Chk(FALSE, <<"C16", "C17", "C18">>, e.what), s0)
    [] e.op = "fitonly" ->  \* other planners: only that the world is untouched
         J((IF e.exc # "" THEN Chk(FALSE, <<"C18">>, "fitting failed: " \o e.alg) ELSE <<>>) \o Same(e), s0)
    [] e.op = "mcts" ->
         IF e.exc # "" THEN J(Chk(FALSE, <<"C16", "C17", "C18">>, "the tree search failed: " \o e.exc) \o Same(e), s0)
         ELSE LET c == Sit(e) IN
              IF e.seen = 0      \* playouts not recorded
              THEN J(QClauses(c, e) \o Same(e), s0)
              ELSE IF ~WellFormed(c, e) THEN J(Chk(FALSE, <<"C16", "C17">>, "the record of playouts is malformed") \o Same(e), s0)
              ELSE LET r == Iter(c, e, [p |-> P0(c), vis |-> 0, oth |-> <<>>, expand |-> TRUE,
                                        V |-> [s \in 1 .. c.ns |-> 0], N |-> [s \in 1 .. c.ns |-> 0],
                                        memo |-> <<>>, st |-> s0, cs |-> <<>>, stop |-> FALSE], 1)
                   IN J(r.cs \o Same(e) \o QClauses(c, e)
                      \o (IF r.stop THEN <<>>
                          ELSE Chk(r.N = e.N, <<"C17">>, "the visit counts are not the number of visits")
                               \o Chk(r.V = e.V, <<"C17">>, "the totals are not the sums of the playouts' returns")
                               \o Chk(Fair(r.st["opp"]) /\ Fair(r.st["opp1"]), <<"C16">>, "simulated opponents choosing at random do not choose evenly")
                               \o Chk(Fair(r.st["first"]) /\ Fair(r.st["rich"]), <<"C17">>,
                                      "moves after the expansion are not chosen evenly at random")),
                      r.st)

Init == l = 1 /\ bad = <<>> /\ tal = St0
Step == /\ l <= Len(Log)
        /\ LET e == Log[l]
               j == TLCEval(Judge(e, IF l > 1 /\ Log[l - 1].id = e.id THEN tal ELSE St0))
           IN bad' = AddBad(bad, Tag(l, e.id, j.cs)) /\ tal' = j.st
        /\ l' = l + 1
Finish == /\ l = Len(Log) + 1 /\ WriteVerdict(bad, 0) /\ l' = l + 1 /\ UNCHANGED <<bad, tal>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
===========================================================================
