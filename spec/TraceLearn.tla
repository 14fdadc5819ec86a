----------------------------- MODULE TraceLearn -----------------------------
(* Judges logs of the learners (C20, C21, C22, C23, C25).                   *)
EXTENDS Learn, TraceLib
VARIABLES l, bad, S
vars == <<l, bad, S>>
NegInf == -2000000002
Weird == {-2000000001, -2000000002, -2000000003}
Near(a, b, tol) == a \notin Weird /\ b \notin Weird /\ Abs(a - b) <= tol
NearSeq(p, q, tol) == Len(p) = Len(q) /\ \A i \in DOMAIN p : Near(p[i], q[i], tol)
TabsOf(e) == TLCEval([i \in DOMAIN e.ms |-> TLCEval(SuccTab(e.ms[i].g, e.ms[i].walls))])
NDir(m) == IF m.g.kind = "table" THEN m.g.na ELSE NMoves(m.g.kind)

Match(e) ==
  LET nf == Len(e.ms[1].feat)
      want == [f \in 1 .. nf |-> IF (f - 1) \in Range(e.ign) THEN 0
                                 ELSE Frac(SumF(LAMBDA k : MatchCount(e.ms[e.mi[k] + 1].feat, f, e.trs[k]), 1, Len(e.trs)), ONE, e.ms[1].fd)]
  IN Chk(e.exc = "", <<"C20">>, "feature matching failed: " \o e.exc)
     \o (IF e.exc # "" THEN <<>>
         ELSE Chk(NearSeq(e.out, want, 1), <<"C20">>, "feature matching does not count the features of the states moved into")
              \o Chk(e.same = 1, <<"C20">>, "feature matching changed its input"))

Eye(e) ==
  LET nf == Len(e.ms[1].feat)
      tabs == TabsOf(e)
      per(k) == LET m == e.ms[e.mi[k] + 1]
                    t == tabs[e.mi[k] + 1]
                    c == Normed([f \in 1 .. nf |-> ChosenCount(t, m.feat, f, e.trs[k], IF e.diff = 1 THEN NDir(m) ELSE m.g.na)])
                    o == IF e.diff = 1 THEN Normed([f \in 1 .. nf |-> OtherCount(t, m.feat, f, e.trs[k], NDir(m))])
                         ELSE [f \in 1 .. nf |-> 0]
                IN [f \in 1 .. nf |-> c[f] - o[f]]
      ps == TLCEval([k \in DOMAIN e.trs |-> per(k)])
      want == [f \in 1 .. nf |-> e.base[f] + SumF(LAMBDA k : ps[k][f], 1, Len(e.trs))]
  IN Chk(e.exc = "", <<"C20">>, "action-based inference failed: " \o e.exc)
     \o (IF e.exc # "" THEN <<>>
         ELSE Chk(NearSeq(e.out, want, 4 + 3 * Len(e.trs)), <<"C20">>,
                  IF e.diff = 1 THEN "line-of-sight counts of the direction taken minus those not taken"
                  ELSE "line-of-sight counts of the direction taken")
              \o Chk(e.same = 1, <<"C20">>, "action-based inference changed its input"))

TD(e) ==
  LET tabs == TabsOf(e)
      RECURSIVE acts(_)
      acts(k) == IF k > Len(e.trs) THEN <<>> ELSE ActsOf(tabs[e.mi[k] + 1], e.trs[k]) \o acts(k + 1)
      want == DecayRule(e.q0, acts(1), e.n, e.d, e.dec, 1, e.ker, e.ls)
  IN Chk(e.exc = "", <<"C22">>, "policy learning failed: " \o e.exc)
     \o (IF e.exc # "" THEN <<>>
         ELSE Chk(\A i \in DOMAIN e.qs : e.qs[i] = e.qs[1], <<"C22">>, "action values differ between states")
              \o Chk(NearSeq(e.qs[1], want, 2 * (e.d \div e.n) + 14 + Len(acts(1))), <<"C22">>, "not the iterated delta rule")
              \o Chk(e.same = 1, <<"C22">>, "policy learning changed its input"))

(* Decaying learning rates: qs[k + 1] is the estimate after k moves.  The   *)
(* fraction moved by the k-th is n/d * k^-(dec2/2).                          *)
TDD(e) ==
  IF e.exc # "" THEN Chk(FALSE, <<"C22">>, "policy learning failed: " \o e.exc)
  ELSE
  LET acts == ActsOf(TabsOf(e)[1], e.tr)
      na == Len(e.qs[1])
      gap(k) == ONE - e.qs[k][acts[k] + 1]             \* towards the action taken
      clear(k) == gap(k) >= 50000
      frac(k) == FDiv(e.qs[k + 1][acts[k] + 1] - e.qs[k][acts[k] + 1], gap(k))
      rate(k) == IF e.dec2 % 2 = 0 THEN Frac(ONE, e.n, e.d * k ^ (e.dec2 \div 2))
                 ELSE Frac((1000 * ONE) \div ISqrt(1000000 * k ^ e.dec2), e.n, e.d)
      finite == \A k \in DOMAIN e.qs : \A j \in 1 .. na : e.qs[k][j] \notin Weird
      ok(k) == clear(k) =>
        /\ Near(frac(k), rate(k), 1500)
        /\ \A j \in 1 .. na : Near(e.qs[k + 1][j],
             e.qs[k][j] + FMul(frac(k), Target(j - 1, acts[k], na, e.ker, e.ls) - e.qs[k][j]), 150)
  IN Chk(finite /\ Len(e.qs) = Len(e.tr), <<"C22">>, "the estimate is not a number")
     \o (IF finite /\ Len(e.qs) = Len(e.tr)
         THEN Chk(\A k \in DOMAIN acts : ok(k), <<"C22">>, "the decaying learning rate is not learning rate * k^-decay")
         ELSE <<>>)

(* As many MDPs as trajectories, or else. *)
Lens(e) == Chk(e.exc # "", <<e.prop>>, "a list of MDPs of another length than the list of trajectories was accepted")
           \o Chk(e.same = 1, <<e.prop>>, "a refused fit changed the estimate or its input")

(* One iteration of maximum-entropy inference. *)
ME(e) ==
  IF e.exc # "" THEN Chk(FALSE, <<"C21">>, "maximum-entropy inference failed: " \o e.exc)
  ELSE
  LET tab == TLCEval(SuccTab(e.g, e.walls))
      ns == e.g.ns
      na == e.g.na
      nf == Len(e.feat)
      P(s) == Poss1(tab, s)
      rew == TLCEval([s \in 1 .. ns |-> SumF(LAMBDA f : e.th0[f] * e.feat[f][s], 1, nf) \div e.fd])
      qfin == \A s \in 1 .. ns : \A j \in 1 .. na : IF j \in P(s) THEN e.q[s][j] \notin Weird ELSE e.q[s][j] = NegInf
      thfin == \A f \in 1 .. nf : e.th1[f] \notin Weird
      V == TLCEval([s \in 1 .. ns |-> IF P(s) = {} THEN 0 ELSE IF e.soft = 1 THEN LogSumExp(e.q[s], P(s)) ELSE MaxOver(e.q[s], P(s))])
      back(s, j) == SumF(LAMBDA k : LET x == tab[s][j][k] IN Frac(rew[x[1] + 1] + Frac(V[x[1] + 1], e.gn, e.gd), x[2], e.g.den),
                         1, Len(tab[s][j]))
      bell == \A s \in 1 .. ns : \A j \in P(s) : Abs(e.q[s][j] - back(s, j)) <= 150
      pi == TLCEval([s \in 1 .. ns |-> IF P(s) = {} THEN [j \in 1 .. na |-> 0]
                               ELSE IF e.soft = 1 THEN SoftPi(e.q[s], P(s), na) ELSE HardPi(e.rk[s], P(s), na)])
      p0 == TLCEval(StartDist(ns, e.trs))
      D == Visits(e.nit, tab, e.g.den, p0, pi, [s \in 1 .. ns |-> 0])
      tolD == 12 * e.nit * e.nit + 50
      emp == TLCEval(Empirical(ns, e.trs))
      err(f, d) == IF (f - 1) \in Range(e.ign) THEN 0 ELSE (FeatExp(e.feat, f, emp) - FeatExp(e.feat, f, d)) \div e.fd
      big(f) == SumF(LAMBDA s : Abs(e.feat[f][s]), 1, ns)
      step(x) == Frac(x, e.n, e.d)
      dOk == Len(e.D) = ns /\ \A s \in 1 .. ns : Near(e.D[s], D[s], tolD)
      tight == IF e.D # <<>> /\ dOk THEN e.D ELSE D
      tolE(f) == (big(f) * (IF e.D # <<>> THEN 4 + Len(e.trs) ELSE tolD)) \div e.fd + 10
  IN IF ~(qfin /\ thfin) THEN Chk(FALSE, <<"C21">>, "values or estimate are not numbers")
     ELSE Chk(bell, <<"C21">>, "the policy does not belong to the current estimate")
          \o Chk(e.D = <<>> \/ dOk, <<"C21">>, "expected visits are not the start distribution propagated through the policy")
          \o Chk(e.err = <<>> \/ \A f \in 1 .. nf : Near(e.err[f], err(f, tight), tolE(f)), <<"C21">>,
                 "the error is not observed minus expected feature counts")
          \o Chk(\A f \in 1 .. nf : Near(e.th1[f], e.th0[f] + step(err(f, tight)), tolE(f) \div 2 + 5), <<"C21">>,
                 "the estimate did not move by the learning rate times the error")
          \o Chk(\A f \in 1 .. nf : (f - 1) \in Range(e.ign) => e.th1[f] = 0, <<"C21">>, "an ignored feature has a weight")
          \o Chk(e.nerr = 1, <<"C21">>, "more or fewer iterations than asked for")
          \o Chk(e.same = 1, <<"C21">>, "fitting changed the MDP or the trajectories")

Chain(e) ==
  Chk(e.exc = "", <<"C21">>, "maximum-entropy inference failed: " \o e.exc)
  \o (IF e.exc # "" THEN <<>>
      ELSE Chk(NearSeq(e.out, e.want, 50), <<"C21">>,
               IF e.perm = 1 THEN "the estimate depends on the order of the trajectories"
               ELSE "several iterations are not a sequence of single ones"))

(* Hypothesis testing: the estimate after every move. *)
HT(e) ==
  IF e.exc # "" THEN Chk(e.jump = 1 /\ e.exc = "ValueError", <<"C25">>, "hypothesis testing failed: " \o e.exc)
  ELSE
  LET tabs == TabsOf(e)
      nf == Len(e.ms[1].feat)
      qs == TLCEval([i \in DOMAIN e.ms |-> TLCEval([f \in 1 .. nf |->
               LET rew == TLCEval([s \in 1 .. e.ms[i].g.ns |-> e.ms[i].feat[f][s] * ONE])
                   den == e.ms[i].g.den
                   v == IF e.soft = 1 THEN SoftSolve(60, tabs[i], rew, e.gn, e.gd, den) ELSE Solve(400, tabs[i], rew, e.gn, e.gd, den)
               IN TLCEval([s \in 1 .. e.ms[i].g.ns |-> TLCEval([j \in 1 .. e.ms[i].g.na |->
                     IF tabs[i][s][j] = <<>> THEN 0 ELSE ActVal(tabs[i][s][j], rew, v, e.gn, e.gd, den)])])])])
      (* number of moves before trajectory k *)
      before(k) == SumF(LAMBDA x : Max2(0, Len(e.trs[x]) - 1), 1, k - 1)
      total == before(Len(e.trs) + 1)
      prev(n) == IF n = 0 THEN e.th0 ELSE e.ths[n]
      shape == /\ Len(e.ths) = total /\ Len(e.tt) = Len(e.trs) /\ Len(e.out) = nf
               /\ \A i \in DOMAIN e.ths : Len(e.ths[i]) = nf
      (* move i of trajectory k under hypothesis f *)
      moveOk(k, i, f) ==
        LET m == e.mi[k] + 1
            s == e.trs[k][i] + 1
            P == Poss1(tabs[m], s)
            j == MoveAction(tabs[m], e.trs[k][i], e.trs[k][i + 1]) + 1
            q == qs[m][f][s]
            n == before(k) + i
            flat == Cardinality(P) = 1 \/ (e.soft = 0 /\ \A x \in 1 .. Len(e.ms[m].feat[f]) : e.ms[m].feat[f][x] = 0)
            z == IF flat THEN 0 ELSE ZScore(q, P, j)
            tol == IF flat THEN 4 ELSE 3000
            old == prev(n - 1)[f]
            rates == IF e.dec = 0 THEN {<<e.n, e.d>>}
                     ELSE DecayRates(e.n, e.d, e.an, e.ad, e.dec, n, Abs(z), Abs(old), tol)
        IN IF f - 1 \in Range(e.ign) THEN e.ths[n][f] = old
           ELSE
           \/ ~flat /\ Spread(q, P) < 30000       \* too close to call: rounding decides
           \/ \E x \in rates : Near(e.ths[n][f], Toward(old, z, x[1], x[2]), tol * (1 + x[1] \div x[2]))
      nearObs(p, q) == NearSeq(p, q, 1)
  IN Chk(e.jump = 0, <<"C25">>, "a trajectory with a jump was accepted")
     \o Chk(shape, <<"C25">>, "one estimate per move and one per trajectory")
     \o (IF ~shape \/ e.jump = 1 THEN <<>>
         ELSE Chk(\A k \in DOMAIN e.trs : \A i \in 1 .. (Len(e.trs[k]) - 1) : \A f \in 1 .. nf : moveOk(k, i, f), <<"C25">>,
                  "a move did not move the estimate towards the standard score of the action taken")
              \o Chk(\A k \in DOMAIN e.trs : nearObs(e.tt[k], prev(before(k + 1))), <<"C25">>,
                     "the estimate recorded after a trajectory is not the running one")
              \o Chk(nearObs(e.out, prev(total)), <<"C25">>, "the final estimate is not the running one")
              \o Chk(e.same = 1, <<"C25">>, "fitting changed the MDP"))

(* C23: S = [init, has, lr, rets]: what was given and returned so far. *)
Fresh(e) == [init |-> e.init, has |-> e.has, lr |-> -1, rets |-> <<>>]
Held(e) == Chk(e.init = S.init, <<"C23">>, "the initial estimate supplied by the caller was modified")
           \o Chk(Len(e.rets) = Len(S.rets) /\ \A i \in DOMAIN e.rets : e.rets[i] = S.rets[i], <<"C23">>,
                  "an estimate returned earlier was modified")
LFit(e) == Chk(e.exc = "", <<"C23">>, "fitting failed: " \o e.exc)
           \o (IF e.exc # "" THEN <<>>
               ELSE Held(e)
                    \o Chk(e.fresh = <<>> \/ NearSeq(e.out, e.fresh, 1) \/ e.out = e.fresh, <<"C23">>,
                           "a new or reset learner does not give the result of a fresh one")
                    \o Chk(e.same = 1, <<"C23">>, "fitting changed the MDP"))
LReset(e) == Chk(e.exc = "", <<"C23">>, "reset failed: " \o e.exc)
             \o (IF e.exc # "" THEN <<>>
                 ELSE Held(e) \o Chk(e.has = S.has /\ e.est = S.init, <<"C23">>, "reset did not restore the initial estimate"))

Judge(e) ==
  CASE e.op = "malformed" -> Chk(FALSE, <<"C20", "C21", "C22", "C23", "C25">>, e.what)
    [] e.op = "match" -> Match(e)
    [] e.op = "eye" -> Eye(e)
    [] e.op = "td" -> TD(e)
    [] e.op = "tdd" -> TDD(e)
    [] e.op = "lens" -> Lens(e)
    [] e.op = "me" -> ME(e)
    [] e.op = "chain" -> Chain(e)
    [] e.op = "ht" -> HT(e)
    [] e.op = "lnew" -> <<>>
    [] e.op = "lfit" -> LFit(e)
    [] e.op = "lreset" -> LReset(e)
After(e) ==
  CASE e.op = "lnew" -> Fresh(e)
    [] e.op = "lfit" /\ e.exc = "" -> [S EXCEPT !.rets = Append(e.rets, e.out), !.init = e.init]
    [] e.op = "lreset" -> [S EXCEPT !.rets = e.rets, !.init = e.init]
    [] OTHER -> S

Init == l = 1 /\ bad = <<>> /\ S = [init |-> <<>>, has |-> 0, lr |-> -1, rets |-> <<>>]
Step == /\ l <= Len(Log)
        /\ bad' = AddBad(bad, Tag(l, Log[l].id, Judge(Log[l])))
        /\ S' = After(Log[l])
        /\ l' = l + 1
Finish == /\ l = Len(Log) + 1 /\ WriteVerdict(bad, 0) /\ l' = l + 1 /\ UNCHANGED <<bad, S>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
===========================================================================
