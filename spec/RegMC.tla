-------------------------------- MODULE RegMC --------------------------------
(* All short two-target regression histories: laws between the metrics. *)
EXTENDS Metrics, TLC
CONSTANTS Vals, Depth
VARIABLES h
Init == h = <<>>
Next == Len(h) < Depth /\ \E a, b, c, d \in Vals : h' = Append(h, [t |-> <<a, b>>, p |-> <<c, d>>])
One == Target(h, 1)
Laws == h = <<>> \/
        (/\ FLe(FMul(MAE(One), MAE(One)), FAdd(MSE(One), "1e-9"))
        /\ FLe(AMAE(h), FAdd(ARMSE(h), "1e-9"))
        /\ FLe(FMul(ARMSE(h), ARMSE(h)), FAdd(AMSE(h), "1e-9"))
        /\ (FEq(AMSE(h), 0) <=> \A k \in 1..Len(h) : h[k].t = h[k].p))
=============================================================================
