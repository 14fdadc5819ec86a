----------------------------- MODULE TraceSucc -----------------------------
(* Judges logs of the successor representation (C24). *)
EXTENDS Succ, TraceLib
VARIABLES l, bad
vars == <<l, bad>>
NegInf == -2000000002
Weird == {-2000000001, -2000000002, -2000000003}
Judge(e) ==
  CASE e.op = "malformed" -> Chk(FALSE, <<"C24">>, e.what)
    [] e.op = "sr" ->
       IF e.exc # "" THEN Chk(FALSE, <<"C24">>, "successor representation failed: " \o e.exc)
       ELSE
       LET tab == SuccTab(e.g, e.walls)
           n == e.g.ns * e.g.na
           shape == Len(e.M) = n /\ \A i \in 1 .. n : Len(e.M[i]) = n /\ \A j \in 1 .. n : e.M[i][j] \notin Weird
       IN Chk(shape, <<"C24">>, "shape of the representation")
          \o (IF ~shape THEN <<>> ELSE Chk(Solves(tab, e.M, e.gn, e.gd, e.sc, 3), <<"C24">>, "M = I + gamma P M does not hold"))
    [] e.op = "srq" ->
       IF e.exc # "" THEN Chk(FALSE, <<"C24">>, "action values failed: " \o e.exc)
       ELSE
       LET tab == SuccTab(e.g, e.walls)
           rew == TLCEval([s \in 1 .. e.g.ns |-> SumSeq([f \in DOMAIN e.th |-> e.th[f] * e.feat[f][s]])])     \* units of 1/4
           shape == Len(e.q) = e.g.ns /\ \A s \in 1 .. e.g.ns : Len(e.q[s]) = e.g.na
           tol == 6 + SumSeq([s \in 1 .. e.g.ns |-> Abs(rew[s])]) * e.g.na
           ok(s, a) == IF tab[s][a] = <<>> THEN e.q[s][a] = NegInf
                       ELSE e.q[s][a] \notin Weird
                            /\ Abs(4 * e.q[s][a] - PairValue(tab, e.M, rew, (s - 1) * e.g.na + a)) <= tol
       IN Chk(shape, <<"C24">>, "shape of the action values")
          \o (IF ~shape THEN <<>>
              ELSE Chk(\A s \in 1 .. e.g.ns, a \in 1 .. e.g.na : ok(s, a), <<"C24">>,
                       "an action value is not the representation applied to the rewards (minus infinity if impossible)"))
Init == l = 1 /\ bad = <<>>
Step == /\ l <= Len(Log)
        /\ bad' = AddBad(bad, Tag(l, Log[l].id, Judge(Log[l])))
        /\ l' = l + 1
Finish == /\ l = Len(Log) + 1 /\ WriteVerdict(bad, 0) /\ l' = l + 1 /\ UNCHANGED bad
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
===========================================================================
