------------------------------ MODULE Lifecycle ------------------------------
(***************************************************************************)
(* What every learner of the library promises about its life: a model is   *)
(* exactly what it was taught since it was made (or last reset), nothing   *)
(* else.  A slot holds one instance.  The specification's state of a slot  *)
(* is its history: the sequence of training calls, each a range <<a, b>>   *)
(* of rows of a fixed pool (for a learner that learns row by row adjacent  *)
(* ranges merge: it must not matter how the rows were cut into calls).     *)
(* Making, resetting and cloning give the empty history; a copy takes the  *)
(* history along and then lives its own life; asking changes nothing.      *)
(* The answer to a row is a function of (history, row): the table collects *)
(* the first answer for each pair and every later answer, by whatever      *)
(* instance and path, must agree with it.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Real64

Teach(rows, h, a, b) ==
    IF rows /\ Len(h) > 0 /\ h[Len(h)][2] + 1 = a
    THEN SubSeq(h, 1, Len(h) - 1) \o << <<h[Len(h)][1], b>> >>
    ELSE Append(h, <<a, b>>)

Hist0 == << >>
Slots0(n) == [k \in 1..n |-> Hist0]

Known(tab, h, row) == {e \in tab : e.h = h /\ e.row = row}
(* an unseen class and a class of probability zero are the same answer *)
Pad(x, n) == [k \in 1..n |-> IF k <= Len(x) THEN x[k] ELSE 0]
Longer(x, y) == IF Len(x) > Len(y) THEN Len(x) ELSE Len(y)
AgreeV(tol, x, y) == /\ Len(x.p) = Len(y.p) /\ FCloseSeq(x.p, y.p, tol)
                     /\ FCloseSeq(Pad(x.q, Longer(x.q, y.q)), Pad(y.q, Longer(x.q, y.q)), tol)
=============================================================================
