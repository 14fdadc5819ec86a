------------------------------ MODULE TraceSeed ------------------------------
(* Judges logs of pairs of runs (C28): a and b record what two identically  *)
(* built systems did under the same operations.                             *)
EXTENDS Sequences, Integers, TLC, TraceLib
VARIABLES l, bad
vars == <<l, bad>>
C == <<"C28">>
Upto(e) == IF Len(e.a) < Len(e.b) THEN Len(e.a) ELSE Len(e.b)
Judge(e) ==
  CASE e.op = "malformed" -> Chk(FALSE, C, e.what)
    [] e.op = "pair" ->
       Chk(Len(e.a) = Len(e.b) /\ \A k \in 1 .. Upto(e) : e.a[k] = e.b[k], C,
           IF e.seeded = 1 THEN "seeded runs differ although the same operations were applied"
           ELSE "runs from the same state of the global generator differ")
Init == l = 1 /\ bad = <<>>
Step == /\ l <= Len(Log)
        /\ bad' = AddBad(bad, Tag(l, Log[l].id, Judge(Log[l])))
        /\ l' = l + 1
Finish == /\ l = Len(Log) + 1 /\ WriteVerdict(bad, 0) /\ l' = l + 1 /\ UNCHANGED bad
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
===========================================================================
