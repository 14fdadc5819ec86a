---------------------------- MODULE TraceBellman ----------------------------
(* Judges logs of value-iteration fits (C15): the reported values must be   *)
(* a fixed point of the Bellman operator of the world at the time of the    *)
(* fit, which has only one.                                                 *)
EXTENDS Bellman, TraceLib
VARIABLES l, bad
vars == <<l, bad>>
NegInf == -2000000002
NoVal == -2000000001
Judge(e) ==
  CASE e.op = "malformed" -> Chk(FALSE, <<"C15">>, e.what)
    [] e.op = "vi" ->
       IF e.exc # "" THEN Chk(FALSE, <<"C15">>, "value iteration failed: " \o e.exc)
       ELSE LET tab == SuccTab(e.g, e.walls)
                ns == e.g.ns
                den == e.g.den
                rew == [s \in 1 .. ns |-> SumF(LAMBDA r : e.rf[r] * e.feat[r][s], 1, Len(e.feat)) * (e.sc \div e.rs)]
                shape == /\ Len(e.v) = ns /\ Len(e.q) = ns /\ \A s \in 1 .. ns : Len(e.q[s]) = e.g.na
                finite == \A s \in 1 .. ns : e.v[s] \notin {NegInf, NoVal, -2000000003}
                poss(s) == {a \in 1 .. e.g.na : tab[s][a] # <<>>}
                qok(s, a) == IF a \notin poss(s) THEN e.q[s][a] = NegInf
                             ELSE e.q[s][a] # NegInf /\ e.q[s][a] # NoVal
                                  /\ Abs(den * e.gd * e.q[s][a] - Backup(tab[s][a], rew, e.v, e.gn, e.gd))
                                       <= den * e.gd * (e.tol + 2)
                vok(s) == IF poss(s) = {} THEN e.v[s] = 0
                          ELSE \A a \in poss(s) : e.q[s][a] <= e.v[s] + e.tol + 2
                vmax(s) == poss(s) = {} \/ \E a \in poss(s) : Abs(e.q[s][a] - e.v[s]) <= e.tol + 2
            IN Chk(shape, <<"C15">>, "shape of the values")
               \o (IF ~shape THEN <<>>
                   ELSE Chk(finite, <<"C15">>, "a state value is not a number")
                        \o (IF ~finite THEN <<>> ELSE
                        Chk(\A s \in 1 .. ns, a \in 1 .. e.g.na : a \in poss(s) \/ qok(s, a), <<"C15">>, "an impossible action has a value above minus infinity")
                        \o Chk(\A s \in 1 .. ns, a \in 1 .. e.g.na : a \notin poss(s) \/ qok(s, a), <<"C15">>,
                               "the value of an action is not expected reward plus discounted value of the state entered")
                        \o Chk(\A s \in 1 .. ns : vok(s) /\ vmax(s), <<"C15">>,
                               "the value of a state is not the maximum over its possible actions (0 without any)")))

Init == l = 1 /\ bad = <<>>
Step == /\ l <= Len(Log)
        /\ bad' = AddBad(bad, Tag(l, Log[l].id, Judge(Log[l])))
        /\ l' = l + 1
Finish == /\ l = Len(Log) + 1 /\ WriteVerdict(bad, 0) /\ l' = l + 1 /\ UNCHANGED bad
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
===========================================================================
