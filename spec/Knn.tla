-------------------------------- MODULE Knn ----------------------------------
(***************************************************************************)
(* Nearest-neighbour learners over a sliding window: the memory is the     *)
(* sequence of the newest samples [x, y]; a query is answered from its k   *)
(* nearest samples.  Samples tied at the k-th distance may be chosen in    *)
(* any way, so the answer is a set of possible answers.  The adaptive      *)
(* variant (ad) watches its own accuracy with ADWIN and keeps only as many *)
(* samples as ADWIN's window.                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Real64, Adwin
AdwP == [maxb |-> 5, clock |-> 32, minwin |-> 10, minlen |-> 5, delta |-> "0.002", exactvar |-> FALSE, fullscan |-> FALSE]
KnnInit == [w |-> <<>>, announced |-> {}, seen |-> {}, ad |-> AInit]
RECURSIVE MaxAbs(_, _, _)
MaxAbs(a, b, k) == IF k = 0 THEN 0 ELSE FMax(FAbs(FSub(a[k], b[k])), MaxAbs(a, b, k - 1))
RECURSIVE SumAbs(_, _, _)
SumAbs(a, b, k) == IF k = 0 THEN 0 ELSE FAdd(FAbs(FSub(a[k], b[k])), SumAbs(a, b, k - 1))
Dist(m, a, b) == CASE m \in {"euclidean", "minkowski", "l2"} -> FSqrt(FSqDist(a, b))
                   [] m \in {"manhattan", "l1", "cityblock"} -> SumAbs(a, b, Len(a))
                   [] m \in {"chebyshev", "infinity"} -> MaxAbs(a, b, Len(a))
Same(a, b) == FLe(FAbs(FSub(a, b)), FAdd("1e-12", FMul("1e-10", FMax(FAbs(a), FAbs(b)))))
(* the nearest k: sure (strictly nearer than the k-th distance) and tied (at it), as index sets *)
Near(c, w, x) ==
    LET d == [j \in 1..Len(w) |-> Dist(c.metric, w[j].x, x)]
        o == FArgSort(d)
        dk == d[o[c.k]]
        tied == {j \in 1..Len(w) : Same(d[j], dk)}
    IN [sure |-> {j \in 1..Len(w) : FLt(d[j], dk) /\ j \notin tied}, tied |-> tied]
Cnt(w, S, y) == Cardinality({j \in S : w[j].y = y})
Ready(c, s) == Len(s.w) >= c.k
Ambiguous(c, n) == Cardinality(n.sure) + Cardinality(n.tied) > c.k
LowBd(w, c, n, y) == LET need == c.k - Cardinality(n.sure)
                         other == Cardinality(n.tied) - Cnt(w, n.tied, y)
                     IN Cnt(w, n.sure, y) + (IF need > other THEN need - other ELSE 0)
UppBd(w, c, n, y) == LET need == c.k - Cardinality(n.sure)
                         mine == Cnt(w, n.tied, y)
                     IN Cnt(w, n.sure, y) + (IF need < mine THEN need ELSE mine)
(* may the query be answered with the vote fractions p (class 0 first)? *)
VotesOK(w, c, n, p) ==
    /\ \A y \in 0..Len(p) - 1 : /\ FGe(FMul(p[y + 1], c.k), FSub(LowBd(w, c, n, y), "1e-9"))
                                /\ FLe(FMul(p[y + 1], c.k), FAdd(UppBd(w, c, n, y), "1e-9"))
                                /\ FClose(FMul(p[y + 1], c.k), FRound(FMul(p[y + 1], c.k)), "1e-9")
    /\ FClose(FSum(p), 1, "1e-9")
LabelOK(w, c, n, y) == /\ y >= 0
    /\ \A z \in 0..c.maxc : /\ UppBd(w, c, n, y) >= LowBd(w, c, n, z)
                            /\ ~Ambiguous(c, n) => \/ UppBd(w, c, n, y) > UppBd(w, c, n, z)
                                                   \/ (UppBd(w, c, n, y) = UppBd(w, c, n, z) /\ y <= z)
(* the majority label when there are no ties in distance *)
Label(w, c, n) == CHOOSE y \in 0..c.maxc : LabelOK(w, c, n, y)
RECURSIVE FSumN(_, _, _)
FSumN(q, a, b) == IF a > b THEN 0 ELSE FAdd(q[a], FSumN(q, a + 1, b))
Targets(w, S) == LET q == SelectSeq([j \in 1..Len(w) |-> IF j \in S THEN <<w[j].y>> ELSE <<>>], LAMBDA z : z # <<>>) IN [j \in 1..Len(q) |-> q[j][1]]
Sorted(q) == LET o == FArgSort(q) IN [j \in 1..Len(q) |-> q[o[j]]]
Median(q) == LET z == Sorted(q) n == Len(q) IN
             IF n % 2 = 1 THEN z[(n + 1) \div 2] ELSE FDiv(FAdd(z[n \div 2], z[n \div 2 + 1]), 2)
RegOK(w, c, n, v) ==
    LET sure == Targets(w, n.sure)
        t == Sorted(Targets(w, n.tied))
        need == c.k - Len(sure)
        lo == sure \o SubSeq(t, 1, need)
        hi == sure \o SubSeq(t, Len(t) - need + 1, Len(t))
        f(q) == IF c.agg = "mean" THEN FDiv(FSum(q), c.k) ELSE Median(q)
    IN FGe(v, FSub(f(lo), FMul("1e-9", FAdd(1, FAbs(f(lo)))))) /\ FLe(v, FAdd(f(hi), FMul("1e-9", FAdd(1, FAbs(f(hi))))))
Push(c, w, smp) == LET v == Append(w, smp) IN IF Len(v) > c.W THEN SubSeq(v, Len(v) - c.W + 1, Len(v)) ELSE v
(* one training sample; the adaptive variant feeds its detector whether it classifies the sample correctly once it is in
   the memory, looks for a change, and forgets the samples older than the detector's window (width: as observed, -1 unknown) *)
Learn1(c, s, x, y, width) ==
    LET w == Push(c, s.w, [x |-> x, y |-> y])
        t == [s EXCEPT !.w = w, !.seen = @ \cup (IF c.kind = "reg" THEN {} ELSE {y})]
    IN IF c.kind # "adwin" THEN t
       ELSE IF Len(w) < c.k THEN [t EXCEPT !.ad = Add(AdwP, @, 0)]
       ELSE LET hit == Label(w, c, Near(c, w, x)) = y
                a == Add(AdwP, t.ad, IF hit THEN 1 ELSE 0)
                d == Detect(AdwP, a, IF width < 0 THEN a.width ELSE width)
            IN [t EXCEPT !.ad = d, !.w = IF d.width < a.width /\ d.width < Len(@) THEN SubSeq(@, Len(@) - d.width + 1, Len(@)) ELSE @]
RECURSIVE LearnAll(_, _, _, _, _)
LearnAll(c, s, X, Y, width) == IF X = <<>> THEN s
    ELSE LearnAll(c, Learn1(c, s, X[1], Y[1], IF Len(X) = 1 THEN width ELSE -1), Tail(X), Tail(Y), width)
Fit(c, s, X, Y, cls, width) == LearnAll(c, [s EXCEPT !.announced = @ \cup cls], X, Y, width)
Reset(s) == KnnInit
=============================================================================
