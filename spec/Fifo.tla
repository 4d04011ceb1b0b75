-------------------------------- MODULE Fifo --------------------------------
(***************************************************************************)
(* Bounded first-in first-out buffers (FastBuffer, FastComplexBuffer,      *)
(* SlidingWindow) and counting matrices (ConfusionMatrix, MOLConfusion-    *)
(* Matrix) of skmultiflow.utils.data_structures.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences
LastN(q, n) == IF Len(q) <= n THEN q ELSE SubSeq(q, Len(q) - n + 1, Len(q))
FirstN(q, n) == SubSeq(q, 1, IF n > Len(q) THEN Len(q) ELSE n)
(* adding a list of elements: what is kept and what is thrown out *)
AddKeeps(q, max, xs) == LastN(q \o xs, max)
AddEvicts(q, max, xs) == LET a == q \o xs IN IF Len(a) <= max THEN <<>> ELSE FirstN(a, Len(a) - max)
DropOldest(q) == IF q = <<>> THEN q ELSE Tail(q)
Oldest(q) == IF q = <<>> THEN "None" ELSE q[1]
(* counting matrices: a function from cells to counts plus a size *)
Cell(m, k) == IF k \in DOMAIN m THEN m[k] ELSE 0
Bump(m, k, w) == [x \in DOMAIN m \union {k} |-> IF x = k THEN Cell(m, k) + w ELSE m[x]]
=============================================================================
