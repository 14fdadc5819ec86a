---------------------------- MODULE TraceSelect ----------------------------
(* Judges logs of the action selectors against Select (C13 greedy, C14      *)
(* softmax).  PS is the scale of logged probabilities.                      *)
EXTENDS Select, TraceLib
VARIABLES l, bad
vars == <<l, bad>>
PS == 100000
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Isqrt(_, _, _)
Isqrt(x, lo, hi) ==
  IF lo = hi THEN lo
  ELSE LET m == (lo + hi + 1) \div 2 IN IF m <= x \div m THEN Isqrt(x, m, hi) ELSE Isqrt(x, lo, m - 1)
Sqrt(x) == IF x <= 0 THEN 0 ELSE Isqrt(x, 0, 46340)

Prop(e) == IF e.sel = "max" THEN <<"C13">> ELSE <<"C14">>
(* Rows whose only known values are minus infinity leave nothing to choose   *)
(* between; mixed with unknown ones they are not judged, nor for softmax.    *)
Judgeable(e, row) == Finite(row) # {} \/ Known(row) = {} \/ (e.sel = "max" /\ Known(row) = DOMAIN row)

ProbOk(e, row, p) ==
  IF Known(row) = {} THEN \A a \in DOMAIN row : p[a] = NaN
  ELSE IF e.sel = "max"
  THEN LET m == MaxSet(row)
           k == Cardinality(m) IN
       \A a \in DOMAIN row : IF a \in m THEN Abs(k * p[a] - PS) <= k ELSE p[a] = 0
  ELSE LET t == Total(row) IN
       \A a \in DOMAIN row : /\ (a \notin Finite(row) => p[a] = 0)
                             /\ Abs(p[a] * t - PS * Weight(row, a)) <= 2 * t
ActOk(e, row, a) ==      \* a is 0-based
  IF Known(row) = {} THEN a = -1
  ELSE IF e.sel = "max" THEN (a + 1) \in MaxSet(row)
  ELSE (a + 1) \in Finite(row) /\ Weight(row, a + 1) > 0

(* Six standard deviations around the expected number of choices. *)
Near(cnt, n, w, t) == Abs(cnt * t - n * w) <= 6 * Sqrt(n * w * (t - w)) + 2 * t

Judge(e) ==
  CASE e.op = "malformed" -> Chk(FALSE, <<"C13", "C14">>, e.what)
    [] e.op = "table" ->
       IF e.exc # "" THEN Chk(FALSE, Prop(e), "a legal table of action values was refused")
       ELSE Chk(Len(e.p) = Len(e.q) /\ Len(e.pi) = Len(e.q) /\ \A s \in DOMAIN e.p : Len(e.p[s]) = Len(e.q[s]), Prop(e), "shape of the policy")
         \o (IF Len(e.p) # Len(e.q) \/ Len(e.pi) # Len(e.q) THEN <<>> ELSE
         Chk(\A s \in DOMAIN e.q : Judgeable(e, e.q[s]) => ProbOk(e, e.q[s], e.p[s]), Prop(e),
                IF e.sel = "max" THEN "action probabilities are not uniform over exactly the maximal actions"
                ELSE "action probabilities do not follow the Boltzmann distribution")
         \o Chk(\A s \in DOMAIN e.q : Judgeable(e, e.q[s]) => ActOk(e, e.q[s], e.pi[s]), Prop(e),
                "an action was selected that the selector must not select")
         \o Chk(e.same = 1, Prop(e), "the supplied action values were modified"))
    [] e.op = "sample" ->   \* counts of selected actions for one row
       IF e.exc # "" THEN Chk(FALSE, Prop(e), "a legal table of action values was refused")
       ELSE LET row == e.row
                m == MaxSet(row) IN
            Chk(\A a \in DOMAIN row :
                  IF e.sel = "max"
                  THEN IF a \in m THEN Near(e.counts[a], e.n, 1, Cardinality(m)) ELSE e.counts[a] = 0
                  ELSE IF a \in Finite(row) THEN Near(e.counts[a], e.n, Weight(row, a) \div e.wdiv, Total(row) \div e.wdiv) ELSE e.counts[a] = 0,
                Prop(e), IF e.sel = "max" THEN "ties are not broken uniformly" ELSE "sampled actions do not follow their probabilities")
    [] e.op = "refuse" -> Chk(e.exc # "", Prop(e), "not refused: " \o e.what)
    [] e.op = "accept" -> Chk(e.exc = "", Prop(e), "refused: " \o e.what)

Init == l = 1 /\ bad = <<>>
Step == /\ l <= Len(Log)
        /\ bad' = AddBad(bad, Tag(l, Log[l].id, Judge(Log[l])))
        /\ l' = l + 1
Finish == /\ l = Len(Log) + 1 /\ WriteVerdict(bad, 0) /\ l' = l + 1 /\ UNCHANGED bad
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
===========================================================================
