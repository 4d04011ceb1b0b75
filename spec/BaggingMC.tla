------------------------------ MODULE BaggingMC ------------------------------
(* Bagging with the draws left open: whatever they are, a member holds exactly what it was taught since its last reset, *)
(* only the member with the largest estimated error is reset, and only after the error of some member rose.             *)
EXTENDS Bagging, TLC
CONSTANTS Kind, Alg, Max, T, Deep
MCP == [kind |-> Kind, n |-> 2, K |-> 2, C |-> 1, watch |-> "err", alg |-> Alg, w |-> 1, rate |-> 2, cp |-> 1, cn |-> "0.5", coded |-> FALSE, near |-> FALSE,
        ad |-> [maxb |-> 3, clock |-> 1, minwin |-> 1, minlen |-> 1, delta |-> "2.5", exactvar |-> TRUE, fullscan |-> TRUE]]
VARIABLES s, given, prev, last
vars == <<s, given, prev, last>>
Init == s = Ens0(MCP) /\ given = [j \in 1..2 |-> 0] /\ prev = Ens0(MCP) /\ last = [y |-> 0, ks |-> <<0, 0>>]
Next == /\ s.t < T
        /\ \E y \in 0..1 : \E ks \in [1..2 -> 0..Max] :
             LET r == Row(MCP, s, [code |-> 0, y |-> y, w |-> 1, syn |-> <<<<>>, <<>>>>, stat |-> TRUE], ks)
                 hit == IF Len(r.s.resets) > Len(s.resets) THEN r.s.resets[Len(r.s.resets)] ELSE 0
             IN /\ r.bad = ""
                /\ s' = r.s /\ prev' = s /\ last' = [y |-> y, ks |-> ks]
                /\ given' = [j \in 1..2 |-> IF j = hit THEN 0 ELSE given[j] + ks[j]]
View == <<s.m, s.t, given, s.resets, prev.m, last>>
Holds == \A j \in 1..2 : s.m[j].cnt[1][1] + s.m[j].cnt[1][2] = given[j]
Fresh == Len(s.resets) > Len(prev.resets)
Hit == s.resets[Len(s.resets)]
OneAtMost == Len(s.resets) <= Len(prev.resets) + 1
(* whoever is reset had been taught to err at least as much as the others *)
Worst == Fresh => /\ s.m[Hit].cnt = Cnt0(MCP) /\ s.m[Hit].ad = AInit
                  /\ \A j \in 1..2 \ {Hit} : s.m[j].ad.width > 0
(* the others keep what they learnt *)
Others == \A j \in 1..2 : (Fresh /\ j = Hit) \/ s.m[j].cnt[1][last.y + 1] = prev.m[j].cnt[1][last.y + 1] + last.ks[j]
(* a reset needs an error in this row *)
Cause == Fresh => \E j \in 1..2 : LET q == [prev.m[j] EXCEPT !.cnt[1][last.y + 1] = @ + last.ks[j]] IN Label(MCP, q, 0) # last.y
Probabilities == LET a == Answer(MCP, s, 0) IN
    \/ Boosts(MCP)
    \/ (\A l \in 1..2 : FGe(a[l], 0)) /\ (IF \E j \in 1..2 : given[j] > 0 THEN FClose(FSum(a), 1, "1e-9") ELSE FEq(FSum(a), 0))
(* boosting: the shares of right and wrong weight; the weight of members that are better than chance is positive *)
Rates == \A j \in 1..2 : LET b == s.m[j].b IN
    /\ FGe(b.eps, 0) /\ FLe(b.eps, 1) /\ FGe(b.wacc, 0) /\ FLe(b.wacc, FAdd(1, "1e-9"))
    /\ Kind = "boost" => (FGt(b.sc, b.sw) => FGt(Weight(MCP, b), 0)) /\ (FLt(b.sc, b.sw) => FLt(Weight(MCP, b), 0))
(* output codes of any balanced matrix: two classes with the same code get the same votes *)
Codes == Deep => \A c1 \in [1..2 -> 0..1] : \A c2 \in [1..2 -> 0..1] :
    LET z == [s EXCEPT !.m[1].code = c1, !.m[2].code = c2]
        a == CodeAnswer(MCP, z, 0)
    IN (\A j \in 1..2 : z.m[j].code[1] = z.m[j].code[2]) => FEq(a[1], a[2])
Seldom == Len(s.resets) < 1
=============================================================================
