-------------------------------- MODULE Seed --------------------------------
(* Where random numbers come from.  Every component that draws (the MDP and *)
(* each agent's action selector) has a source: its own seeded stream, or    *)
(* the common global generator.  A draw returns the next number of the      *)
(* source; the numbers of a stream depend on its seed and position only.    *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Numbers                          \* the numbers a draw can give
(* the k-th number (k >= 1) of the stream with seed s; any fixed function   *)
Stream(s, k) == ((s * 7 + k * k + s * k * 3) % Numbers)

(* m: [seed |-> component -> its seed or 0 for the global generator,        *)
(*     at   |-> component -> position in its own stream,                     *)
(*     gseed, gat |-> seed and position of the global generator,             *)
(*     out  |-> numbers drawn by the system under observation]               *)
Fresh(seed, gseed) == [seed |-> seed, at |-> [c \in DOMAIN seed |-> 0], gseed |-> gseed, gat |-> 0, out |-> <<>>]
Draw(m, c) ==
  IF m.seed[c] = 0
  THEN [m EXCEPT !.gat = @ + 1, !.out = Append(@, Stream(m.gseed, m.gat + 1))]
  ELSE [m EXCEPT !.at[c] = @ + 1, !.out = Append(@, Stream(m.seed[c], m.at[c] + 1))]
Seeded(m) == \A c \in DOMAIN m.seed : m.seed[c] # 0
(* Someone else uses the global generator. *)
Interfere(m) == [m EXCEPT !.gat = @ + 1]
Reseed(m, s) == [m EXCEPT !.gseed = s, !.gat = 0]
===========================================================================
