--------------------------- MODULE ConceptsTrace ---------------------------
(* cfg: gen, fn, balance, noise (label noise rate or "0.0"), perturb (bool)  *)
EXTENDS Concepts, FiniteSets
VARIABLES tr, i, st

R(ok, s) == [ok |-> ok, st |-> s]
CStart(c) ==
    IF c.gen \in {"LEDD", "LED"} THEN [cand |-> [k \in 1..7 |-> 1..c.nf], n |-> 0, flips |-> 0]
    ELSE IF c.gen = "WAVE" THEN [sum |-> [g \in 1..3 |-> [k \in 1..21 |-> "0.0"]], cnt |-> [g \in 1..3 |-> 0]]
    ELSE [fn |-> c.fn, want |-> 1, n |-> 0, flips |-> 0, bal |-> 0]

(* one sample of a concept generator *)
One(c, s, x, y) ==
    LET l == Label(c.gen, s.fn, x) IN
    IF ~Domain(c.gen, x, c.hv) THEN R("feature outside its documented domain", s)
    ELSE IF ~(Eq(y, 0) \/ Eq(y, 1)) THEN R("label is not a class of the generator", s)
    ELSE IF ~c.perturb /\ FEq(c.noise, 0) /\ y # l THEN R("label is not the one its concept assigns to the features", s)
    ELSE IF c.balance /\ FEq(c.noise, 0) /\ y # s.want THEN R("balanced labels do not alternate", s)
    ELSE R("", [s EXCEPT !.n = @ + 1, !.want = 1 - y, !.flips = @ + (IF y # l THEN 1 ELSE 0)])

RECURSIVE Many(_, _, _, _, _)
Many(c, s, X, Y, k) ==
    IF k > Len(X) THEN R("", s)
    ELSE LET r == One(c, s, X[k], Y[k]) IN IF r.ok # "" THEN r ELSE Many(c, r.st, X, Y, k + 1)

LedOne(c, s, x, y) ==
    LET Bit(v) == Eq(v, 0) \/ Eq(v, 1) IN
    IF ~(\A k \in 1..Len(x) : Bit(x[k])) THEN R("LED attribute is not binary", s)
    ELSE IF ~(\E d \in 0..9 : Eq(y, d)) THEN R("LED label is not a digit", s)
    ELSE LET pat == Led[y + 1]
             fl == Cardinality({k \in 1..7 : x[k] # pat[k]})
             cand2 == [k \in 1..7 |-> {j \in s.cand[k] : x[j] = pat[k]}] IN
         IF c.gen = "LED" /\ FEq(c.noise, 0) /\ fl > 0 THEN R("segments do not show the labelled digit", s)
         ELSE IF FEq(c.noise, 0) /\ (\E k \in 1..7 : cand2[k] = {})
              THEN R("no attribute shows a segment of the labelled digit consistently", s)
         ELSE R("", [cand |-> IF FEq(c.noise, 0) THEN cand2 ELSE s.cand, n |-> s.n + 1, flips |-> s.flips + fl])
RECURSIVE LedMany(_, _, _, _, _)
LedMany(c, s, X, Y, k) ==
    IF k > Len(X) THEN R("", s)
    ELSE LET r == LedOne(c, s, X[k], Y[k]) IN IF r.ok # "" THEN r ELSE LedMany(c, r.st, X, Y, k + 1)

RECURSIVE WaveMany(_, _, _, _, _)
WaveMany(c, s, X, Y, k) ==
    IF k > Len(X) THEN R("", s)
    ELSE IF ~(\E g \in 0..2 : Eq(Y[k], g)) THEN R("waveform label is not a class", s)
    ELSE LET g == Y[k] + 1 IN
         WaveMany(c, [sum |-> [s.sum EXCEPT ![g] = [j \in 1..21 |-> FAdd(@[j], X[k][j])]],
                      cnt |-> [s.cnt EXCEPT ![g] = @ + 1]], X, Y, k + 1)

HyperOne(c, s, e) ==
    LET l == Hyper(e.w, e.x[1]) IN
    IF ~(\A k \in 1..Len(e.x[1]) : Unit(e.x[1][k])) THEN R("feature outside its documented domain", s)
    ELSE IF ~(Eq(e.y[1], 0) \/ Eq(e.y[1], 1)) THEN R("label is not a class of the generator", s)
    ELSE IF FEq(c.noise, 0) /\ e.y[1] # l THEN R("label is not the side of the hyperplane", s)
    ELSE IF ~(\A k \in 1..Len(e.w) :
                IF k <= c.ndrift THEN FClose(FAbs(FSub(e.w2[k], e.w[k])), c.mag, "1e-9")
                ELSE FEq(e.w2[k], e.w[k])) THEN R("weights do not move by the drift magnitude on the drifting features only", s)
    ELSE R("", [s EXCEPT !.n = @ + 1, !.flips = @ + (IF e.y[1] # l THEN 1 ELSE 0)])

TreeOne(c, s, x, y) ==
    LET nn == c.nnum  nc == c.ncat IN
    IF ~(\A k \in 1..nn : Unit(x[k])) THEN R("feature outside its documented domain", s)
    ELSE IF ~(\A a \in 0..(c.nnom - 1) :
                /\ \A k \in 1..nc : Eq(x[nn + a * nc + k], 0) \/ Eq(x[nn + a * nc + k], 1)
                /\ Cardinality({k \in 1..nc : x[nn + a * nc + k] = 1}) = 1)
         THEN R("nominal attribute is not one-hot", s)
    ELSE IF ~FEq(y, TreeLabel(c.tree, x, nn, nc)) THEN R("label is not that of the leaf the features reach", s)
    ELSE R("", [s EXCEPT !.n = @ + 1])
RECURSIVE TreeMany(_, _, _, _, _)
TreeMany(c, s, X, Y, k) ==
    IF k > Len(X) THEN R("", s)
    ELSE LET r == TreeOne(c, s, X[k], Y[k]) IN IF r.ok # "" THEN r ELSE TreeMany(c, r.st, X, Y, k + 1)

CStep(c, s, e) ==
    CASE e.op = "next" /\ c.gen \in {"LED", "LEDD"} -> LedMany(c, s, e.x, e.y, 1)
      [] e.op = "next" /\ c.gen = "WAVE" -> WaveMany(c, s, e.x, e.y, 1)
      [] e.op = "next" /\ c.gen = "HYPER" -> HyperOne(c, s, e)
      [] e.op = "next" /\ c.gen = "RTREE" -> TreeMany(c, s, e.x, e.y, 1)
      [] e.op = "next" -> Many(c, s, e.x, e.y, 1)
      [] e.op = "drift" ->
           IF ~(\E f \in 0..(NFuncs(c.gen) - 1) : Eq(e.fn, f)) THEN R("generate_drift selected an unknown concept", s)
           ELSE IF e.fn = s.fn THEN R("generate_drift did not change the concept", s)
           ELSE R("", [s EXCEPT !.fn = e.fn])
      [] e.op = "restart" -> R("", [s EXCEPT !.want = 1])

(* observed flips against n draws of probability p: 6 sigma + 3 *)
RateOk(n, k, p) ==
    LET q == FMax(p, "0.0") IN
    FLe(FAbs(FSub(k, FMul(n, q))), FAdd("3.0", FMul("6.0", FSqrt(FMul(n, FMul(q, FSub("1.0", FMin(q, "1.0"))))))))
CFinish(c, s) ==
    CASE c.gen = "WAVE" ->
           IF \E g \in 1..3 : s.cnt[g] < c.minper THEN "a waveform class is hardly ever generated"
           ELSE IF \E g \in 1..3 : \E k \in 1..21 :
                     ~FLe(FAbs(FSub(FDiv(s.sum[g][k], s.cnt[g]),
                                    FDiv(WaveH[WavePair[g][1]][k] + WaveH[WavePair[g][2]][k], "2.0"))), c.tol)
                THEN "class mean is not the combination of the two base waves of the class"
           ELSE ""
      [] c.gen = "LEDD" ->
           IF FEq(c.noise, 0) /\ ~(Cardinality({k \in 1..7 : s.cand[k] # {k}}) = c.ndrift) THEN "wrong number of drifted attributes"
           ELSE ""
      [] c.gen = "LED" -> IF ~RateOk(7 * s.n, s.flips, FSub(c.noise, "0.01")) THEN "segments are not inverted at the noise rate" ELSE ""
      [] c.gen = "RTREE" -> ""
      [] OTHER -> IF ~c.perturb /\ ~RateOk(s.n, s.flips, FSub(c.noise, "0.01")) THEN "labels are not flipped at the noise rate" ELSE ""
INSTANCE TraceCheck WITH Start <- CStart, Step <- CStep, Finish <- CFinish
=============================================================================
