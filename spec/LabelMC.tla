------------------------------- MODULE LabelMC -------------------------------
(* All short multi-label histories: laws between the multi-label metrics. *)
EXTENDS Metrics, TLC
CONSTANTS L, Depth
VARIABLES h
Vecs == [1..L -> {0, 1}]
Init == h = <<>>
Next == Len(h) < Depth /\ \E t, p \in Vecs : h' = Append(h, [t |-> t, p |-> p])
Laws == LET ham == Hamming(h, L) ex == ExactMatch(h) j0 == Jaccard(h, 0) j1 == Jaccard(h, 1) IN
        /\ FLe(ex, FAdd(ham, "1e-12")) /\ FLe(ex, FAdd(j1, "1e-12")) /\ FLe(j0, j1)
        /\ FLe(j1, FAdd(ham, "1e-12"))
        /\ FLe(0, j0) /\ FLe(ham, 1)
        /\ (h # <<>> /\ FEq(ham, 1)) <=> (h # <<>> /\ FEq(ex, 1))
=============================================================================
