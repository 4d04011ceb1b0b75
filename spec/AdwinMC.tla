------------------------------- MODULE AdwinMC -------------------------------
EXTENDS Adwin, TLC
CONSTANTS P, Values, Depth
VARIABLES s, h, lastCut
Init == s = AInit /\ h = <<>> /\ lastCut = FALSE
DoAdd == Len(h) < Depth /\ \E x \in Values : s' = Add(P, s, x) /\ h' = Append(h, x) /\ lastCut' = FALSE
DoCheck == /\ h # <<>> /\ s.time < Len(h) /\ s' = Detect(P, s, 0) /\ h' = h /\ lastCut' = (s'.width < s.width)
Next == DoAdd \/ DoCheck
RECURSIVE Sizes(_, _)
Sizes(rows, r) == IF r = 0 THEN <<>> ELSE [k \in 1..Len(rows[r]) |-> Pow2(r - 1)] \o Sizes(rows, r - 1)
RECURSIVE Totals(_, _)
Totals(rows, r) == IF r = 0 THEN <<>> ELSE [k \in 1..Len(rows[r]) |-> rows[r][k]] \o Totals(rows, r - 1)
RECURSIVE SumTo(_, _)
SumTo(z, k) == IF k = 0 THEN 0 ELSE z[k] + SumTo(z, k - 1)
SZ == Sizes(s.rows, Len(s.rows))
BK == Totals(s.rows, Len(s.rows))
Suffix == s.w = SubSeq(h, Len(h) - Len(s.w) + 1, Len(h)) /\ s.width = Len(s.w)
Covers == SumTo(SZ, Len(SZ)) = s.width
Bounded == \A r \in 1..Len(s.rows) : Len(s.rows[r]) <= P.maxb
NoGap == s.width > 0 => \A r \in 1..Len(s.rows) : s.rows[r] # <<>>
Seg(k) == SubSeq(s.w, SumTo(SZ, k - 1) + 1, SumTo(SZ, k))
Summaries == \A k \in 1..Len(BK) : /\ FClose(BK[k].t, FSum(Seg(k)), "1e-9")
                                   /\ P.exactvar => FClose(BK[k].v, FMul(Len(Seg(k)), Var(Seg(k))), "1e-9")
TotalOK == FClose(s.total, FSum(s.w), "1e-9")
VarOK == s.width > 0 => IF P.exactvar THEN FClose(FDiv(s.var, s.width), Var(s.w), "1e-7")
                        ELSE FLe(FSub(Var(s.w), "1e-7"), FDiv(s.var, s.width))
Constant == (h # <<>> /\ \A k \in 1..Len(h) : h[k] = h[1]) => s.width = Len(h)
Counted == lastCut => s.ndet > 0
=============================================================================
