------------------------------- MODULE ForestMC -------------------------------
(* Every stream of labels and every number of copies (0, 1 or 2) per member, at small sizes: a tree always holds exactly what its member  *)
(* was taught since the tree was made, a tree that takes over was made at a warning after the tree it replaces, nothing is judged before. *)
EXTENDS Forest
CONSTANTS N, K, T, TW, TD, Warn
VARIABLES s, h
P == [kind |-> "arf", n |-> N, K |-> K, weighted |-> TRUE, warn |-> Warn, drift |-> TRUE, tw |-> TW, td |-> TD]
Init == s = Forest0(P) /\ h = <<>>
Next == /\ Len(h) < T
        /\ \E y \in 0..(K - 1) : \E ks \in [1..N -> 0..2] :
           /\ s' = [m |-> [j \in 1..N |-> Row1(P, s.m[j], y, 1, ks[j], 0, Len(h) + 1)], t |-> s.t + 1]
           /\ h' = Append(h, [y |-> y, ks |-> ks])
Holds(j, from) == [l \in 1..K |-> LET F[k \in from..Len(h)] == IF k = from THEN 0 ELSE F[k - 1] + (IF h[k].y = l - 1 THEN h[k].ks[j] ELSE 0) IN F[Len(h)]]
MainExact == \A j \in 1..N : s.m[j].main = Holds(j, s.m[j].born)
BackExact == \A j \in 1..N : s.m[j].has => s.m[j].bg = Holds(j, s.m[j].bgborn) /\ s.m[j].bgborn > s.m[j].born
(* no background tree without warnings, no warning level left standing *)
Levels == \A j \in 1..N : s.m[j].wd < TW /\ s.m[j].dd < TD /\ (s.m[j].has => Warn)
Judged == \A j \in 1..N : s.m[j].ev.ok <= s.m[j].ev.n /\ s.m[j].ev.n <= Len(h) /\ (s.m[j].drifts = 0 => s.m[j].ev.n = Len(h))
(* a forest whose trees know nothing says nothing; otherwise it answers with a distribution *)
AnswerOK == IF \A j \in 1..N : Total(s.m[j].main) = 0 THEN \A l \in 1..K : FEq(Proba(P, s)[l], 0) ELSE FClose(FSum(Proba(P, s)), 1, "1e-09")
(* drifts never come faster than the detector needs errors *)
Sparse == \A j \in 1..N : s.m[j].drifts * TD <= Len(h) /\ s.m[j].warns * TW <= Len(h)
=============================================================================
