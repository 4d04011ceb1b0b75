------------------------------ MODULE ClassStats ------------------------------
(***************************************************************************)
(* What a learner that keeps class-conditional statistics knows after a    *)
(* set of weighted rows: weights per class, per numeric attribute and      *)
(* class a weighted mean and variance with the range seen, per nominal     *)
(* attribute and class the weight of every value; and the naive Bayes      *)
(* prediction from them.  Classes are integers; all weights are doubles.   *)
(* Nominal values are integers.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Real64

Upd(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Get(f, k) == IF k \in DOMAIN f THEN f[k] ELSE 0
Asc(S) == Ascending(S)
FSumF(f) == LET o == Asc(DOMAIN f) IN FSum([j \in 1..Len(o) |-> f[o[j]]])
Empty == [x \in {} |-> 0]
(* the class of largest value, the lowest such; DOMAIN f non-empty *)
ArgMax(f) == CHOOSE c \in DOMAIN f : \A d \in DOMAIN f : FLe(f[d], f[c]) /\ (FEq(f[d], f[c]) => c <= d)
(* two candidates that rounding could exchange *)
RelClose(a, b) == ~FEq(a, b) /\ FLe(FAbs(FSub(a, b)), FMul("1e-09", FMax(FAbs(a), FAbs(b))))
Shaky(f) == LET b == ArgMax(f) IN \E c \in DOMAIN f : c # b /\ RelClose(f[c], f[b])

(* ---------------- numeric attribute, one class ---------------- *)
Gauss(x, w) == [w |-> FCanon(w), m |-> x, v |-> 0, lo |-> x, hi |-> x]
GaussAdd(g, x, w) ==
    LET tw == FAdd(g.w, w)
        m == FAdd(g.m, FDiv(FMul(w, FSub(x, g.m)), tw))
    IN [w |-> tw, m |-> m, v |-> FAdd(g.v, FMul(FMul(w, FSub(x, g.m)), FSub(x, m))),
        lo |-> FMin(g.lo, x), hi |-> FMax(g.hi, x)]
Sd(g) == IF FGt(g.w, 1) THEN FSqrt(FDiv(g.v, FSub(g.w, 1))) ELSE 0
Root2Pi == FSqrt(FMul(2, "3.141592653589793"))
Density(g, x) ==
    LET s == Sd(g) d == FSub(x, g.m) IN
    IF FGt(s, 0) THEN FMul(FDiv(1, FMul(Root2Pi, s)), FExp(FNeg(FDiv(FMul(d, d), FMul(2, FMul(s, s))))))
    ELSE IF FEq(x, g.m) THEN 1 ELSE 0
(* estimated weight at or below x, and above x *)
Below(g, x) ==
    LET s == Sd(g) eq == FMul(Density(g, x), g.w) IN
    IF FGt(s, 0) THEN FAdd(FSub(FMul(FPhi(FDiv(FSub(x, g.m), s)), g.w), eq), eq)
    ELSE IF FGt(x, g.m) THEN g.w ELSE eq
Above(g, x) ==
    LET s == Sd(g) eq == FMul(Density(g, x), g.w)
        lt == IF FGt(s, 0) THEN FSub(FMul(FPhi(FDiv(FSub(x, g.m), s)), g.w), eq) ELSE IF FGt(x, g.m) THEN FSub(g.w, eq) ELSE 0
    IN FMax(0, FSub(FSub(g.w, eq), lt))

(* ---------------- attributes: functions from classes ---------------- *)
NumLearn(a, x, y, w) == Upd(a, y, IF y \in DOMAIN a THEN GaussAdd(a[y], x, w) ELSE Gauss(x, w))
NomLearn(a, x, y, w) == Upd(a, y, IF y \in DOMAIN a THEN Upd(a[y], x, FAdd(Get(a[y], x), w)) ELSE Upd(Empty, x, FCanon(w)))
Likelihood(nominal, a, x, c) ==
    IF c \notin DOMAIN a THEN 0
    ELSE IF nominal THEN FDiv(FAdd(Get(a[c], x), 1), FAdd(FSumF(a[c]), Cardinality(DOMAIN a[c])))
    ELSE Density(a[c], x)

(* ---------------- a set of statistics ---------------- *)
(* n: class weights; obs: per attribute its statistics, or "off"; nom: the nominal attributes (1-based positions) *)
ObsLearn(nom, obs, x, y, w) ==
    IF obs = <<>> THEN [a \in 1..Len(x) |-> IF a \in nom THEN NomLearn(Empty, x[a], y, w) ELSE NumLearn(Empty, x[a], y, w)]
    ELSE [a \in 1..Len(x) |-> IF IsStrV(obs[a]) THEN "off" ELSE IF a \in nom THEN NomLearn(obs[a], x[a], y, w) ELSE NumLearn(obs[a], x[a], y, w)]
NLearn(n, y, w) == Upd(n, y, FAdd(Get(n, y), w))

(* naive Bayes: prior times likelihoods, in attribute order; a product that is not a number counts as 0 *)
NB(nom, n, obs, x) ==
    LET tot == FSumF(n)
        Z(v) == IF FIsNaN(v) THEN 0 ELSE v
        V(c) == LET F[a \in 0..Len(obs)] == IF a = 0 THEN FDiv(n[c], tot)
                                            ELSE IF IsStrV(obs[a]) THEN F[a - 1]
                                            ELSE Z(FMul(F[a - 1], Likelihood(a \in nom, obs[a], x[a], c)))
                IN F[Len(obs)]
    IN IF DOMAIN n = {} \/ FEq(tot, 0) THEN [c \in {0} |-> 0] ELSE Force([c \in DOMAIN n |-> V(c)])
(* votes made into probabilities, unless all are 0 *)
Norm(v) == LET t == FSumF(v) IN IF FEq(t, 0) THEN v ELSE [c \in DOMAIN v |-> FDiv(v[c], t)]
(* does an observed row of probabilities say the same?  columns are classes 0, 1, ... *)
SameRow(row, v) ==
    /\ \A c \in DOMAIN v : c + 1 <= Len(row) \/ FEq(v[c], 0)
    /\ \A k \in 1..Len(row) : FClose(row[k], IF k - 1 \in DOMAIN v THEN v[k - 1] ELSE 0, "1e-07")
(* the prediction goes with the votes, unless rounding decides *)
SamePred(p, v) == LET full == [c \in DOMAIN v \cup {0} |-> IF c \in DOMAIN v THEN v[c] ELSE 0]
                  IN Shaky(full) \/ p = ArgMax(full)
=============================================================================
