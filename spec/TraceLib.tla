----------------------------- MODULE TraceLib -----------------------------
(* Common part of all trace specifications: the log of one run of the real *)
(* code (one JSON object per line), and clauses that name the properties   *)
(* they belong to.  A trace specification consumes the log line by line;   *)
(* it never gets stuck: a clause that fails is recorded in `bad' and the   *)
(* specification state is re-synchronised from the log, so that the rest   *)
(* of the log is still judged.  The verdict is written when the log ends.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)

(* One clause: <<>> when it holds, else who is affected and why. *)
Chk(cond, props, why) == IF cond THEN <<>> ELSE << [p |-> props, why |-> why] >>

RECURSIVE Cat(_)
Cat(qs) == IF qs = <<>> THEN <<>> ELSE Head(qs) \o Cat(Tail(qs))

Tag(l, id, cs) == [i \in DOMAIN cs |-> [l |-> l, id |-> id, p |-> cs[i].p, why |-> cs[i].why]]
(* Only what concerns the property being decided is kept, the first MaxBad. *)
MaxBad == 60
Mine(c) == LET p == IOEnv.PROP IN p = "" \/ \E i \in DOMAIN c.p : c.p[i] = p
AddBad(bad, new) == IF Len(bad) >= MaxBad THEN bad ELSE bad \o SelectSeq(new, Mine)

WriteVerdict(bad, aux) ==
  JsonSerialize(IOEnv.VERDICT, [lines |-> Len(Log), bad |-> bad, aux |-> aux])
===========================================================================
