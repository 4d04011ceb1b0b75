------------------------------- MODULE KswinMC -------------------------------
EXTENDS Detectors, TLC
CONSTANTS Depth
VARIABLES s, h
P == [window |-> 4, stat |-> 2, data |-> <<>>]
Init == s = KwInit(P) /\ h = <<>>
Next == Len(h) < Depth /\ \E x \in {0, 1}, c \in BOOLEAN : s' = KwStep(P, s, x, c) /\ h' = Append(h, x)
Suffix == s.w = SubSeq(h, Len(h) - Len(s.w) + 1, Len(h))
Bound == Len(s.w) <= P.window
Shrunk == s.chg => Len(s.w) = P.stat + 1
(* p-values: decreasing in D, 1 at D = 0, 2/C(2n,n) at D = 1 *)
ASSUME \A n \in 1..12 : FClose(KsP(n, 0), 1, "1e-12") /\ \A k \in 1..n : FLe(KsP(n, k), FAdd(KsP(n, k - 1), "1e-12"))
ASSUME FClose(KsP(3, 3), FDiv(2, 20), "1e-12") /\ FClose(KsP(4, 4), FDiv(2, 70), "1e-12")
=============================================================================
