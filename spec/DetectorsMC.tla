---------------------------- MODULE DetectorsMC ----------------------------
(* All short 0/1 sequences: laws of the detectors.                          *)
EXTENDS Detectors, TLC
CONSTANTS P, Depth
VARIABLES s, h, since        \* since: inputs since the last (re)start
O == [chg |-> FALSE, warn |-> FALSE]
Init == s = DInit(P) /\ h = <<>> /\ since = <<>>
Next == /\ Len(h) < Depth
        /\ \E x \in {0, 1} : /\ s' = DStep(P, s, x, O) /\ h' = Append(h, x)
                             /\ since' = IF P.det \in {"DDM", "EDDM", "PH"} /\ s.chg THEN <<x>>
                                         ELSE IF P.det \in {"HDDM_A", "HDDM_W"} /\ s.chg THEN <<x>> ELSE Append(since, x)
Exclusive == ~(s.chg /\ s.warn)
Steady == (h # <<>> /\ \A k \in 1..Len(h) : h[k] = 0) => ~s.chg /\ ~s.warn
MeanOf(q) == FDiv(FSum(q), Len(q))
EstimationIsMean == (P.det \in {"DDM", "PH"} /\ since # <<>>) => FClose(s.est, MeanOf(since), "1e-9")
WarnFirst == s.chg => Len(since) >= P.wait
(* a change needs the mean to have risen *)
Rise == (s.chg /\ P.det \in {"DDM", "PH", "HDDM_A"}) => \E k \in 1..(Len(since) - 1) : FLt(MeanOf(SubSeq(since, 1, k)), MeanOf(since))
=============================================================================
