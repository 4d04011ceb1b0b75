---------------------------- MODULE DriftStream ----------------------------
(***************************************************************************)
(* ConceptDriftStream: each delivered sample is the next sample of source  *)
(* A (before the drift) or of source B (after it); which one is a random   *)
(* choice whose probability of B at the n-th sample is the sigmoid          *)
(* 1/(1+exp(-4(n-position)/width)).                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences
DInit == [n |-> 0, a |-> 0, b |-> 0]
TakeA(s) == [s EXCEPT !.n = @ + 1, !.a = @ + 1]
TakeB(s) == [s EXCEPT !.n = @ + 1, !.b = @ + 1]
=============================================================================
