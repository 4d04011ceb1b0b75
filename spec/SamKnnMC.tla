------------------------------ MODULE SamKnnMC -------------------------------
EXTENDS SamKnn, TLC
CONSTANTS K, MaxW, MaxL, MinS, Opt, UseLtm, Depth, Pts
C == [k |-> K, weighted |-> TRUE, max |-> MaxW, maxltm |-> MaxL, min |-> MinS, opt |-> Opt, ltm |-> UseLtm]
VARIABLES s, hist, odd        \* odd: the memory was once cut in the middle of an odd number of samples
Init == s = SInit /\ hist = <<>> /\ odd = FALSE
(* any representative half of each class stands for the clustering *)
RECURSIVE Pick(_, _)
Pick(q, L) == IF L = {} THEN <<>> ELSE LET y == CHOOSE a \in L : TRUE IN SubSeq(OfClass(q, y), 1, Half(q, y)) \o Pick(q, L \ {y})
Learn(x, y) ==
    LET t == Join(C, s, <<x>>, y)
        u == IF Over(C, t) THEN LET q == ToCompress(C, t) IN Compressed(C, t, Pick(q, Labels(q))) ELSE t
        n == Len(u.stm)
    IN /\ s' = Settle(C, u).st
       /\ odd' = (odd \/ (Len(s'.stm) < n /\ \E z \in 1..Len(Sizes(n, MinS)) : FTrunc(Sizes(n, MinS)[z]) = Len(s'.stm) /\ ~FEq(Sizes(n, MinS)[z], Len(s'.stm))))
       /\ hist' = Append(hist, [x |-> <<x>>, y |-> y])
Next == Len(hist) < Depth /\ \E x \in Pts, y \in 0..1 : Learn(x, y)
Suffix == s.stm = From(hist, Len(hist) - Len(s.stm) + 1) /\ (hist # <<>> => s.stm # <<>>)
Budget == Len(s.stm) + Len(s.ltm) <= MaxW
Records == UseLtm => Len(s.hs) = Len(s.stm) /\ Len(s.hl) = Len(s.stm) /\ Len(s.hc) = Len(s.stm)
Older == \A j \in 1..Len(s.ltm) : \E a \in 1..(Len(hist) - Len(s.stm)) : hist[a] = s.ltm[j]
MinSize == Opt # "None" => (Len(hist) >= MinS => Len(s.stm) >= MinS \/ UseLtm)
(* the incremental histories of maxACC are those of evaluating the suffix from scratch *)
ExactHist == (Opt = "maxACC" /\ ~odd) => \A a \in DOMAIN s.ih : s.ih[a] = SubSeq(Extend(C, s.stm, a, <<>>), 1, Len(s.ih[a]))
(* the whole short-term memory is always judged exactly while there is a long-term memory *)
ExactWhole == (~odd /\ UseLtm /\ 0 \in DOMAIN s.ih) => s.ih[0] = SubSeq(Extend(C, s.stm, 0, <<>>), 1, Len(s.ih[0]))
=============================================================================
