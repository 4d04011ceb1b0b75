------------------------------ MODULE Metrics ------------------------------
(***************************************************************************)
(* What every reported metric means, as a function of the history of       *)
(* results it covers.                                                       *)
(*                                                                          *)
(* Classification: a history is a sequence of results                      *)
(*   [t |-> true class, p |-> predicted class, w |-> weight,               *)
(*    mj |-> the majority-class classifier was right,                      *)
(*    nc |-> the no-change classifier was right]                           *)
(* and K is the set of classes known so far.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Real64

Lst(h, n) == IF Len(h) <= n THEN h ELSE SubSeq(h, Len(h) - n + 1, Len(h))

WSum(h, Test(_)) == FSum([k \in 1..Len(h) |-> IF Test(h[k]) THEN h[k].w ELSE 0])
Weight(h)   == FSum([k \in 1..Len(h) |-> h[k].w])
Right(h)    == WSum(h, LAMBDA r : r.t = r.p)
Row(h, c)   == WSum(h, LAMBDA r : r.t = c)
Col(h, c)   == WSum(h, LAMBDA r : r.p = c)
Hit(h, c)   == WSum(h, LAMBDA r : r.t = c /\ r.p = c)
Ratio(a, b) == IF FGt(b, 0) THEN FDiv(a, b) ELSE 0

Accuracy(h) == Ratio(Right(h), Weight(h))
(* chance-corrected agreement; 0 when it is not defined *)
Corrected(p0, pe) == IF FClose(pe, 1, "1e-12") THEN 0 ELSE FDiv(FSub(p0, pe), FSub(1, pe))
SeqOf(S) == LET RECURSIVE Sq(_) Sq(T) == IF T = {} THEN <<>>
                        ELSE LET m == CHOOSE x \in T : \A y \in T : x <= y IN <<m>> \o Sq(T \ {m})
            IN Sq(S)
Kappa(h, K) ==
    LET n == Weight(h) ks == SeqOf(K) IN
    IF ~FGt(n, 0) THEN 0
    ELSE Corrected(Accuracy(h), FSum([k \in 1..Len(ks) |-> FMul(FDiv(Row(h, ks[k]), n), FDiv(Col(h, ks[k]), n))]))
KappaT(h) == IF ~FGt(Weight(h), 0) THEN 0 ELSE Corrected(Accuracy(h), FDiv(WSum(h, LAMBDA r : r.nc), Weight(h)))
KappaM(h) == IF ~FGt(Weight(h), 0) THEN 0 ELSE Corrected(Accuracy(h), FDiv(WSum(h, LAMBDA r : r.mj), Weight(h)))
PrecisionOf(h, c) == Ratio(Hit(h, c), Col(h, c))
RecallOf(h, c)    == Ratio(Hit(h, c), Row(h, c))
F1Of(h, c) == LET p == PrecisionOf(h, c) r == RecallOf(h, c) IN
              IF FGt(FAdd(p, r), 0) THEN FDiv(FMul(2, FMul(p, r)), FAdd(p, r)) ELSE 0
(* class 1 for two classes, else the unweighted mean over the classes *)
Macro(h, K, Of(_, _)) ==
    IF Cardinality(K) = 2 THEN Of(h, 1)
    ELSE LET ks == SeqOf(K) IN FDiv(FSum([k \in 1..Len(ks) |-> Of(h, ks[k])]), Cardinality(K))
Precision(h, K) == Macro(h, K, PrecisionOf)
Recall(h, K) == Macro(h, K, RecallOf)
F1(h, K) == Macro(h, K, F1Of)
GMean(h, K) ==
    LET ks == SeqOf(K) rs == [k \in 1..Len(ks) |-> RecallOf(h, ks[k])] IN
    IF \E k \in 1..Len(rs) : ~FGt(rs[k], 0) THEN 0
    ELSE FExp(FDiv(FSum([k \in 1..Len(rs) |-> FLn(rs[k])]), Len(rs)))
(* the lowest class with the largest weight; 0 when nothing was observed *)
Majority(h, K) ==
    IF ~FGt(Weight(h), 0) THEN 0
    ELSE CHOOSE c \in K : \A d \in K : FGt(Row(h, c), Row(h, d)) \/ (FEq(Row(h, c), Row(h, d)) /\ c <= d)

(* a classification evaluator: W = 0 means the whole history *)
CInit(n) == [h |-> <<>>, K |-> 0..(n - 1), lt |-> 0, lp |-> 0]
CView(s, W) == IF W = 0 THEN s.h ELSE Lst(s.h, W)
CAdd(s, W, t, p, w) ==
    LET r0 == [t |-> t, p |-> p, w |-> w, mj |-> FALSE, nc |-> s.lt = t]
        K1 == IF FGt(w, 0) THEN s.K \union {t, p} ELSE s.K
        h1 == CView([s EXCEPT !.h = Append(@, r0)], W)
    IN [h |-> Append(s.h, [r0 EXCEPT !.mj = Majority(h1, K1) = t]), K |-> K1, lt |-> t, lp |-> p]

(***************************************************************************)
(* Multi-label: a history of [t |-> 0/1 vector, p |-> 0/1 vector].         *)
(***************************************************************************)
NEq(a, b) == Cardinality({k \in 1..Len(a) : a[k] = b[k]})
ISum(s) == LET RECURSIVE Go(_) Go(k) == IF k = 0 THEN 0 ELSE s[k] + Go(k - 1) IN Go(Len(s))
Hamming(h, L) == IF h = <<>> THEN 0 ELSE FDiv(ISum([k \in 1..Len(h) |-> NEq(h[k].t, h[k].p)]), Len(h) * L)
ExactMatch(h) == IF h = <<>> THEN 0 ELSE FDiv(Cardinality({k \in 1..Len(h) : h[k].t = h[k].p}), Len(h))
Inter(r) == Cardinality({k \in 1..Len(r.t) : r.t[k] # 0 /\ r.p[k] # 0})
Union(r) == Cardinality({k \in 1..Len(r.t) : r.t[k] # 0 \/ r.p[k] # 0})
(* a sample without true and predicted labels scores `empty` *)
Jaccard(h, empty) == IF h = <<>> THEN 0
    ELSE FDiv(FSum([k \in 1..Len(h) |-> IF Union(h[k]) = 0 THEN empty ELSE FDiv(Inter(h[k]), Union(h[k]))]), Len(h))

(***************************************************************************)
(* Regression: a history of [t |-> value(s), p |-> value(s)].              *)
(***************************************************************************)
Mean(s) == IF s = <<>> THEN 0 ELSE FDiv(FSum(s), Len(s))
MSE(h) == Mean([k \in 1..Len(h) |-> FMul(FSub(h[k].t, h[k].p), FSub(h[k].t, h[k].p))])
MAE(h) == Mean([k \in 1..Len(h) |-> FAbs(FSub(h[k].t, h[k].p))])
Target(h, j) == [k \in 1..Len(h) |-> [t |-> h[k].t[j], p |-> h[k].p[j]]]
OverTargets(h, M(_)) == IF h = <<>> THEN 0 ELSE Mean([j \in 1..Len(h[1].t) |-> M(Target(h, j))])
AMSE(h)  == OverTargets(h, MSE)
AMAE(h)  == OverTargets(h, MAE)
ARMSE(h) == OverTargets(h, LAMBDA g : FSqrt(MSE(g)))
=============================================================================
