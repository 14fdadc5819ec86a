------------------------------- MODULE MCSeed -------------------------------
(* Two copies of a system given the same operations.  Copy b may be         *)
(* disturbed by other users of the global generator, copy a is not.         *)
EXTENDS Seed, TLC
CONSTANTS Components, Seeds, MaxOps
VARIABLES a, b, touched
vars == <<a, b, touched>>
Init == /\ \E sd \in [Components -> {0} \cup Seeds], g \in Seeds : a = Fresh(sd, g) /\ b = Fresh(sd, g)
        /\ touched = FALSE
Op == \E c \in Components : a' = Draw(a, c) /\ b' = Draw(b, c) /\ UNCHANGED touched
Disturb == /\ \/ b' = Interfere(b)
              \/ \E s \in Seeds : b' = Reseed(b, s)
           /\ touched' = TRUE /\ UNCHANGED a
Next == Len(a.out) < MaxOps /\ b.gat < MaxOps + 2 /\ (Op \/ Disturb)
Spec == Init /\ [][Next]_vars
(* Fully seeded systems repeat whatever others do; unseeded ones repeat if  *)
(* nobody else used the global generator.                                   *)
Reproducible == (Seeded(a) \/ ~touched) => a.out = b.out
(* Components seeded on their own repeat even next to unseeded ones.        *)
OwnStreams == \A c \in Components : a.seed[c] # 0 => a.at[c] = b.at[c]
===========================================================================
