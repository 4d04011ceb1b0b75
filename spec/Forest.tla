-------------------------------- MODULE Forest --------------------------------
(***************************************************************************)
(* Adaptive random forests (classifier "arf", regressor "arfr") and        *)
(* streaming random patches ("srp").  A member has a main tree, sometimes  *)
(* a background tree growing since its last warning, an evaluation of the  *)
(* main tree, and two detectors.  Trees are kept at their roots (they      *)
(* count what they are taught), detectors signal when p.tw (warning) /     *)
(* p.td (drift) errors have come since they were made or reset.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Real64

Cls(p) == p.kind # "arfr"
Tree0(p) == IF Cls(p) THEN [l \in 1..p.K |-> 0] ELSE [w |-> 0, s |-> 0]
(* labels and weights of classification are small multiples of 1: plain integers *)
TeachTree(p, t, y, w) == IF Cls(p) THEN [t EXCEPT ![y + 1] = @ + w] ELSE [w |-> FAdd(t.w, w), s |-> FAdd(t.s, FMul(y, w))]
Mode(t) == CHOOSE l \in DOMAIN t : \A k \in DOMAIN t : t[k] <= t[l] /\ (t[k] = t[l] => l <= k)
Says(p, t) == IF Cls(p) THEN Mode(t) - 1 ELSE IF FEq(t.w, 0) THEN 0 ELSE FDiv(t.s, t.w)
(* evaluation: n results of (weighted) which ok correct; for regression sums of squared and absolute errors *)
Eval0 == [n |-> 0, ok |-> 0, sq |-> 0, ab |-> 0]
Member0(p) == [main |-> Tree0(p), has |-> FALSE, bg |-> Tree0(p), ev |-> Eval0, bgev |-> Eval0, wd |-> 0, dd |-> 0,
               k |-> 0, M |-> 0, S |-> 0, cols |-> <<>>, bgcols |-> <<>>, born |-> 0, bgborn |-> 0, warns |-> 0, drifts |-> 0]
Forest0(p) == [m |-> [j \in 1..p.n |-> Member0(p)], t |-> 0]

Judge(p, ev, says, y, w) ==
    IF Cls(p) THEN [ev EXCEPT !.n = @ + w, !.ok = IF says = y THEN @ + w ELSE @]
    ELSE LET d == FSub(y, says) IN [ev EXCEPT !.n = @ + 1, !.sq = FAdd(@, FMul(d, d)), !.ab = FAdd(@, FAbs(d))]
(* what a regression detector is fed: the error, standardised by its running mean and deviation since the last reset, mapped from [-3, 3] to [0, 1] *)
Raw(p, says, y) == LET d == FSub(y, says) IN CASE p.crit = "mse" -> FMul(d, d) [] p.crit = "mae" -> FAbs(d) [] OTHER -> says
Standard(m, x) ==
    IF m.k = 0 THEN [m |-> [m EXCEPT !.k = 1, !.M = x, !.S = 0], v |-> 0, loose |-> FALSE]
    ELSE LET k == m.k + 1
             M == FAdd(m.M, FDiv(FSub(x, m.M), k))
             S == FAdd(m.S, FMul(FSub(x, m.M), FSub(x, M)))
             sd == FSqrt(FDiv(S, k - 1))
         IN [m |-> [m EXCEPT !.k = k, !.M = M, !.S = S],
             v |-> FDiv(FAdd(IF FGt(sd, 0) THEN FDiv(FSub(x, M), sd) ELSE 0, 3), 6),
             loose |-> FGt(sd, 0) /\ FLt(sd, FMul("1e-06", FAdd(1, FAbs(M))))]       \* a deviation made of rounding errors
Alarm(v) == FGe(v, "0.6")
(* the drift detector signals: the background tree takes over with its own detectors (fresh) and features, or the tree starts again *)
Drift(p, m, t) ==
    LET a == [m EXCEPT !.dd = 0, !.k = 0, !.M = 0, !.S = 0, !.has = FALSE, !.drifts = @ + 1]
    IN IF p.warn /\ m.has THEN [a EXCEPT !.main = m.bg, !.wd = 0, !.cols = m.bgcols, !.bgcols = <<>>, !.born = m.bgborn,
                                         !.ev = IF Cls(p) THEN Eval0 ELSE m.bgev]
       ELSE [a EXCEPT !.main = Tree0(p), !.cols = <<>>, !.born = t, !.ev = Eval0]
Warning(p, m, t) == [m EXCEPT !.has = TRUE, !.bg = Tree0(p), !.bgev = Eval0, !.bgcols = <<>>, !.bgborn = t, !.wd = 0, !.warns = @ + 1]
(* x: what the detectors are fed *)
Detect(p, m, x, t) ==
    IF ~p.drift THEN m
    ELSE LET a == IF p.warn THEN [m EXCEPT !.wd = IF Alarm(x) THEN @ + 1 ELSE @] ELSE m
             b == IF p.warn /\ a.wd >= p.tw THEN Warning(p, a, t) ELSE a
             c == [b EXCEPT !.dd = IF Alarm(x) THEN @ + 1 ELSE @]
         IN IF c.dd >= p.td THEN Drift(p, c, t) ELSE c
Taught(p, m, y, kw) == [m EXCEPT !.main = TeachTree(p, @, y, kw), !.bg = IF m.has THEN TeachTree(p, @, y, kw) ELSE @]
(* a row (label y, weight w) of which member m is taught k copies; x: what its detectors were seen to be fed (regression; it settles roundings) *)
Row1(p, m, y, w, k, x, t) ==
    IF Cls(p)
    THEN LET a == [m EXCEPT !.ev = Judge(p, @, Says(p, m.main), y, w)]
         IN IF k = 0 THEN a
            ELSE LET b == Taught(p, a, y, k * (IF p.kind = "arf" THEN w ELSE 1))
                 IN Detect(p, b, IF Says(p, b.main) = y THEN 0 ELSE 1, t)
    ELSE IF k = 0 THEN m
         ELSE LET says == Says(p, m.main)
                  a == [m EXCEPT !.ev = Judge(p, @, says, y, w), !.bgev = IF m.has THEN Judge(p, @, Says(p, m.bg), y, w) ELSE @]
                  b == Taught(p, a, y, k)
              IN IF ~p.drift THEN b ELSE Detect(p, Standard(b, Raw(p, says, y)).m, x, t)

(* ---------------- the answer ---------------- *)
Total(t) == LET F[l \in 0..Len(t)] == IF l = 0 THEN 0 ELSE F[l - 1] + t[l] IN F[Len(t)]
Acc(m) == IF m.ev.n = 0 \/ m.ev.ok = 0 THEN 0 ELSE FDiv(m.ev.ok, m.ev.n)
VoteW(p, m) == IF ~p.weighted \/ FEq(Acc(m), 0) THEN 1 ELSE Acc(m)
Votes(p, s) == LET V == {j \in 1..p.n : Total(s.m[j].main) > 0} IN
    [l \in 1..p.K |-> FSum([j \in 1..p.n |-> IF j \in V THEN FMul(FDiv(s.m[j].main[l], Total(s.m[j].main)), VoteW(p, s.m[j])) ELSE 0])]
Proba(p, s) == LET v == Votes(p, s) IN
    IF p.kind = "srp" \/ FEq(FSum(v), 0) THEN v ELSE [l \in 1..p.K |-> FDiv(v[l], FSum(v))]
Err(p, m) == IF m.ev.n = 0 THEN 0 ELSE IF p.err = "mae" THEN FDiv(m.ev.ab, m.ev.n) ELSE FDiv(m.ev.sq, m.ev.n)
Middle(q) == LET s == FArgSort(q) n == Len(q) IN IF n % 2 = 1 THEN q[s[n \div 2 + 1]] ELSE FDiv(FAdd(q[s[n \div 2]], q[s[n \div 2 + 1]]), 2)
Value(p, s) ==
    LET q == [j \in 1..p.n |-> Says(p, s.m[j].main)]
        e == [j \in 1..p.n |-> Err(p, s.m[j])]
        w == [j \in 1..p.n |-> FSub(FSum(e), e[j])]
    IN IF p.agg = "median" THEN Middle(q)
       ELSE IF p.err = "none" \/ FLe(FSum(w), "1e-12") THEN FDiv(FSum(q), p.n)
       ELSE FDiv(FDot(q, w), FSum(w))

(* ---------------- random subspaces ---------------- *)
RoundHalfEven(num, den) == LET q == num \div den r == num % den IN IF 2 * r > den \/ (2 * r = den /\ q % 2 = 1) THEN q + 1 ELSE q
Root(n) == CHOOSE r \in 0..n : r * r <= n /\ (r + 1) * (r + 1) > n
RoundRoot(n) == LET r == Root(n) IN IF n > r * r + r THEN r + 1 ELSE r
SubSize(p) ==
    LET k0 == CASE p.mode = "m" -> p.size
               [] p.mode = "sqrtM1" -> RoundRoot(p.nf) + 1
               [] p.mode = "MsqrtM1" -> p.nf - (RoundRoot(p.nf) + 1)
               [] OTHER -> LET c == IF p.size < 0 THEN 100 + p.size ELSE p.size
                               r == RoundHalfEven(p.nf * c, 100) IN IF r < 2 THEN r + 1 ELSE r
        k == IF k0 < 0 THEN p.nf + k0 ELSE k0
    IN IF p.train = "resampling" \/ k = 0 \/ k >= p.nf THEN p.nf ELSE IF k = 1 /\ p.nf > 2 THEN 2 ELSE k
RECURSIVE Choose(_, _)
Choose(n, k) == IF k = 0 \/ k = n THEN 1 ELSE Choose(n - 1, k) + Choose(n - 1, k - 1)
(* every row is taught exactly once where rows are not resampled (falling back to resampling when the subspace is everything) *)
Always(p) == p.kind = "srp" /\ p.train = "randomsubspaces" /\ SubSize(p) < p.nf
=============================================================================
