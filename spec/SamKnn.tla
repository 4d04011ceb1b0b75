------------------------------- MODULE SamKnn --------------------------------
(***************************************************************************)
(* Self-adjusting memory kNN.  stm: the newest samples; ltm: older         *)
(* knowledge that does not contradict the stm; hs, hl, hc: for every stm   *)
(* sample, whether the short-term, long-term and combined memories         *)
(* predicted it; ih: interleaved test-train histories of the suffixes of   *)
(* the stm that were evaluated, keyed by where the suffix starts.          *)
(* c: k, weighted, max, maxltm (a real), min, opt, ltm.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Real64
SInit == [stm |-> <<>>, ltm |-> <<>>, hs |-> <<>>, hl |-> <<>>, hc |-> <<>>, ih |-> <<>>]
From(q, a) == SubSeq(q, a, Len(q))
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Dists(mem, x) == [j \in 1..Len(mem) |-> FSqDist(x, mem[j].x)]
NN(k, d) == SubSeq(FArgSort(d), 1, Min2(k, Len(d)))
Weight(c, d) == IF c.weighted THEN FDiv(1, FMax(FSqrt(d), "1e-9")) ELSE 1
RECURSIVE Score(_, _, _, _, _)
Score(c, mem, d, nn, y) == IF nn = <<>> THEN 0
    ELSE LET r == Score(c, mem, d, Tail(nn), y) IN IF mem[nn[1]].y = y THEN FAdd(r, Weight(c, d[nn[1]])) ELSE r
(* the label with the largest (weighted) vote among the k nearest; the smallest one on a tie *)
VoteD(c, mem, d) ==
    LET nn == NN(c.k, d)
        L == {mem[nn[j]].y : j \in 1..Len(nn)}
        sc == [y \in L |-> Score(c, mem, d, nn, y)]
    IN CHOOSE y \in L : \A z \in L : FLt(sc[z], sc[y]) \/ (FEq(sc[z], sc[y]) /\ y <= z)
Vote(c, mem, x) == VoteD(c, mem, Dists(mem, x))
PSTM(c, s, x) == IF s.stm = <<>> THEN 0 ELSE Vote(c, s.stm, x)
PLTM(c, s, x) == IF Len(s.stm) < c.k \/ Len(s.ltm) < c.k THEN 0 ELSE Vote(c, s.ltm, x)
PALL(c, s, x) == IF Len(s.stm) < c.k \/ s.stm = <<>> THEN 0 ELSE Vote(c, s.stm \o s.ltm, x)
Hits(q) == Cardinality({j \in 1..Len(q) : q[j]})
(* the memory with the best record answers *)
Predict(c, s, x) ==
    IF ~c.ltm \/ s.stm = <<>> \/ Len(s.stm) < c.k \/ Len(s.ltm) < c.k THEN PSTM(c, s, x)
    ELSE LET a == Hits(s.hs) b == Hits(s.hl) d == Hits(s.hc) IN
         IF a >= b /\ a >= d THEN PSTM(c, s, x) ELSE IF b >= d THEN PLTM(c, s, x) ELSE PALL(c, s, x)
(* remove from mem what contradicts the neighbourhood of stm[i] *)
CleanBy(c, stm, i, mem) ==
    LET rest == SubSeq(stm, 1, i - 1) \o From(stm, i + 1)
        ds == Dists(rest, stm[i].x)
        good == {j \in {NN(c.k, ds)[a] : a \in 1..Min2(c.k, Len(ds))} : rest[j].y = stm[i].y}
        dm == Dists(mem, stm[i].x)
        nm == NN(c.k, dm)
        th == CHOOSE v \in {ds[j] : j \in good} : \A j \in good : FLe(ds[j], v)
        bad == {nm[a] : a \in {b \in 1..Len(nm) : mem[nm[b]].y # stm[i].y /\ FLe(dm[nm[b]], th)}}
    IN IF mem = <<>> \/ good = {} THEN mem
       ELSE LET q == SelectSeq([j \in 1..Len(mem) |-> IF j \in bad THEN <<>> ELSE <<mem[j]>>], LAMBDA z : z # <<>>)
            IN [j \in 1..Len(q) |-> q[j][1]]
RECURSIVE CleanFrom(_, _, _, _)
CleanFrom(c, stm, i, mem) == IF i > Len(stm) \/ mem = <<>> THEN mem ELSE CleanFrom(c, stm, i + 1, CleanBy(c, stm, i, mem))
CleanLast(c, stm, mem) == IF Len(stm) > c.k THEN CleanBy(c, stm, Len(stm), mem) ELSE mem
CleanAll(c, stm, mem) == IF Len(stm) > c.k THEN CleanFrom(c, stm, 1, mem) ELSE mem
(* does the total exceed the budget, and what is compressed then? *)
Over(c, s) == c.ltm /\ Len(s.stm) + Len(s.ltm) > c.max
LtmFull(c, s) == FGt(Len(s.ltm), c.maxltm)
Shifts(c, s) == FTrunc(FAdd(FSub(c.maxltm, Len(s.ltm)), 1))
ToCompress(c, s) == IF LtmFull(c, s) THEN s.ltm ELSE s.ltm \o SubSeq(s.stm, 1, Shifts(c, s))
(* the state with the given compressed long-term memory *)
Compressed(c, s, mem) ==
    IF LtmFull(c, s) THEN [s EXCEPT !.ltm = mem]
    ELSE LET n == Shifts(c, s) + 1 IN
         [s EXCEPT !.ltm = mem, !.stm = From(@, n), !.hs = From(@, n), !.hl = From(@, n), !.hc = From(@, n), !.ih = <<>>]
Labels(mem) == {mem[j].y : j \in 1..Len(mem)}
OfClass(mem, y) == SelectSeq(mem, LAMBDA z : z.y = y)
Half(mem, y) == Max2(Len(OfClass(mem, y)) \div 2, 1)
(* without a long-term memory the oldest sample fades out *)
MoveKeys(ih) ==
    LET D == DOMAIN ih
        z == IF 0 \in D THEN [ih EXCEPT ![0] = Tail(@)] ELSE ih
        N == {k - 1 : k \in D \ {0}} \cup (IF 0 \in D /\ 1 \notin D THEN {0} ELSE {})
    IN [k \in N |-> IF k + 1 \in D THEN z[k + 1] ELSE z[0]]
Fade(c, s) == IF ~c.ltm /\ Len(s.stm) > c.max
              THEN [s EXCEPT !.stm = Tail(@), !.ih = IF c.opt = "maxACCApprox" THEN MoveKeys(@) ELSE <<>>] ELSE s
(* interleaved test-train over stm[a+1..]: extend the history h of correct predictions *)
RECURSIVE Extend(_, _, _, _)
Extend(c, stm, a, h) ==
    LET i == a + c.k + Len(h) + 1 IN
    IF i > Len(stm) THEN h
    ELSE Extend(c, stm, a, Append(h, Vote(c, SubSeq(stm, a + 1, i - 1), stm[i].x) = stm[i].y))
RECURSIVE Sizes(_, _)
Sizes(n, m) == <<n>> \o (IF FGe(FDiv(n, 2), m) THEN Sizes(FDiv(n, 2), m) ELSE <<>>)
StartOf(n, z) == FTrunc(FSub(n, z))
Acc4(h) == FRound(FMul(FDiv(Hits(h), Len(h)), 10000))
Put(f, k, v) == [j \in DOMAIN f \cup {k} |-> IF j = k THEN v ELSE f[j]]
Drop(f, K) == [j \in DOMAIN f \ K |-> f[j]]
(* histories after evaluating every candidate start *)
RECURSIVE Evaluate(_, _, _, _)
Evaluate(c, stm, ids, ih) ==
    IF ids = <<>> THEN ih
    ELSE LET a == ids[1]
             nih == IF a \in DOMAIN ih THEN Put(ih, a, Extend(c, stm, a, ih[a]))
                    ELSE IF c.opt = "maxACCApprox" /\ a - 1 \in DOMAIN ih
                         THEN Put(Drop(ih, {a - 1}), a, Extend(c, stm, a, Tail(ih[a - 1])))
                         ELSE Put(ih, a, Extend(c, stm, a, <<>>))
         IN Evaluate(c, stm, Tail(ids), nih)
RECURSIVE Redo(_, _, _, _)
Redo(c, stm, ids, ih) == IF ids = <<>> THEN ih ELSE Redo(c, stm, Tail(ids), Put(ih, ids[1], Extend(c, stm, ids[1], <<>>)))
BestOf(ids, ih) == CHOOSE b \in 1..Len(ids) : \A d \in 1..Len(ids) :
                     Acc4(ih[ids[b]]) > Acc4(ih[ids[d]]) \/ (Acc4(ih[ids[b]]) = Acc4(ih[ids[d]]) /\ b <= d)
RECURSIVE Rebase(_, _)
Rebase(ih, n) == IF n = 0 THEN ih
    ELSE LET lo == CHOOSE k \in DOMAIN ih : \A j \in DOMAIN ih : k <= j
             r == Drop(ih, {lo})
             d == CHOOSE k \in DOMAIN r : \A j \in DOMAIN r : k <= j
         IN Rebase([k \in {j - d : j \in DOMAIN r} |-> r[k + d]], n - 1)
(* [cut, ih]: how many oldest samples the size adaption gives up *)
Adapt(c, s) ==
    LET n == Len(s.stm)
        zs == Sizes(n, c.min)
        ids == [j \in 1..Len(zs) |-> StartOf(n, zs[j])]
        keep == {j \in DOMAIN s.ih : \E z \in 1..Len(zs) : FEq(j, FSub(n, zs[z]))}
        i0 == IF c.opt = "maxACC" THEN Drop(s.ih, DOMAIN s.ih \ keep) ELSE s.ih
        i1 == Evaluate(c, s.stm, ids, i0)
        b1 == BestOf(ids, i1)
        better == SelectSeq(ids, LAMBDA a : Acc4(i1[a]) > Acc4(i1[0]))
        i2 == IF c.opt = "maxACCApprox" /\ b1 > 1 THEN Redo(c, s.stm, better, i1) ELSE i1
        b2 == BestOf(ids, i2)
    IN IF c.opt = "None" \/ n < 2 * c.min THEN [cut |-> 0, ih |-> s.ih]
       ELSE IF b2 = 1 THEN [cut |-> 0, ih |-> i2]
       ELSE [cut |-> n - FTrunc(zs[b2]), ih |-> Rebase(i2, b2 - 1)]
(* what the size adaption gives up goes, cleaned, to the long-term memory *)
Shrink(c, s) ==
    LET a == Adapt(c, s)
        stm == From(s.stm, a.cut + 1)
    IN IF a.cut = 0 THEN [st |-> [s EXCEPT !.ih = a.ih], add |-> <<>>]
       ELSE IF ~c.ltm THEN [st |-> [s EXCEPT !.ih = a.ih, !.stm = stm], add |-> <<>>]
       ELSE LET add == CleanAll(c, stm, SubSeq(s.stm, 1, a.cut)) IN
            [st |-> [s EXCEPT !.ih = a.ih, !.stm = stm, !.hs = From(@, a.cut + 1), !.hl = From(@, a.cut + 1),
                              !.hc = From(@, a.cut + 1), !.ltm = @ \o add], add |-> add]
(* a new sample joins the short-term memory, after the memories were tested on it *)
Join(c, s, x, y) ==
    LET t == [s EXCEPT !.stm = Append(@, [x |-> x, y |-> y])] IN
    IF ~c.ltm THEN Fade(c, t)
    ELSE [t EXCEPT !.hs = Append(@, PSTM(c, s, x) = y), !.hl = Append(@, PLTM(c, s, x) = y), !.hc = Append(@, PALL(c, s, x) = y)]
(* the rest of the step when nothing had to be compressed *)
Settle(c, t) == Shrink(c, [t EXCEPT !.ltm = CleanLast(c, t.stm, t.ltm)])
=============================================================================
