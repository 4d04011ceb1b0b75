------------------------------ MODULE Detectors ------------------------------
(***************************************************************************)
(* Drift detectors over a sequence of inputs: DDM, EDDM, HDDM_A, HDDM_W,    *)
(* PageHinkley and KSWIN.  For each detector D: Init_D(p) and               *)
(* Step_D(p, s, x, o), where o = [chg, warn] are the observed flags, used  *)
(* only where a comparison is too close to call in floating point.  Every  *)
(* state has chg, warn (flags), est (estimation).                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, Real64, FiniteSets
NearTol == "1e-10"
Near(a, b) == ~(FEq(a, 0) /\ FEq(b, 0)) /\ FClose(a, b, NearTol)
(* a > b, with the observation o deciding near ties *)
Above(a, b, o) == IF Near(a, b) THEN o ELSE FGt(a, b)
Sq(a) == FMul(a, a)

(*--------------------------------------------------------------- DDM ------*)
DdmInit(p) == [n |-> 1, mp |-> 1, ms |-> 0, pmin |-> "inf", smin |-> "inf", psmin |-> "inf", chg |-> FALSE, warn |-> FALSE, est |-> 0]
DdmStep(p, s0, x, o) ==
    LET s == IF s0.chg THEN DdmInit(p) ELSE s0
        mp == FAdd(s.mp, FDiv(FSub(x, s.mp), s.n))
        ms == FSqrt(FDiv(FMul(mp, FSub(1, mp)), s.n))
        n == s.n + 1
        t == [s EXCEPT !.n = n, !.mp = mp, !.ms = ms, !.est = mp, !.chg = FALSE, !.warn = FALSE]
        q == FAdd(mp, ms)
        u == IF FLe(q, s.psmin) \/ Near(q, s.psmin) THEN [t EXCEPT !.pmin = mp, !.smin = ms, !.psmin = q] ELSE t
        c == Above(q, FAdd(u.pmin, FMul(p.out, u.smin)), o.chg)
        w == Above(q, FAdd(u.pmin, FMul(p.warn, u.smin)), o.warn)
    IN IF n < p.min THEN t ELSE [u EXCEPT !.chg = c, !.warn = ~c /\ w]

(*-------------------------------------------------------------- EDDM ------*)
EddmInit(p) == [n |-> 1, errs |-> 0, d |-> 0, mean |-> 0, m2 |-> 0, best |-> 0, chg |-> FALSE, warn |-> FALSE, est |-> 0]
EddmStep(p, s0, x, o) ==
    LET s == IF s0.chg THEN EddmInit(p) ELSE s0
        t == [s EXCEPT !.n = @ + 1, !.chg = FALSE]
    IN IF ~FEq(x, 1) THEN t
       ELSE LET e == s.errs + 1
                dist == s.n - s.d
                mean == FAdd(s.mean, FDiv(FSub(dist, s.mean), e))
                m2 == FAdd(s.m2, FMul(FSub(dist, mean), FSub(dist, s.mean)))
                v == FAdd(mean, FMul(2, FSqrt(FDiv(m2, e))))
                u == [t EXCEPT !.errs = e, !.d = s.n, !.mean = mean, !.m2 = m2, !.est = mean, !.warn = FALSE]
                r == FDiv(v, s.best)
            IN IF t.n < 30 THEN u
               ELSE IF FGt(v, s.best) THEN [u EXCEPT !.best = v]
               ELSE IF e <= 30 THEN u
               ELSE LET c == Above("0.9", r, o.chg) IN
                    [u EXCEPT !.chg = c, !.warn = ~c /\ Above("0.95", r, o.warn)]

(*------------------------------------------------------------ HDDM_A ------*)
HaInit(p) == [nmin |-> 0, cmin |-> 0, n |-> 0, c |-> 0, nmax |-> 0, cmax |-> 0, ne |-> 0, ce |-> 0, chg |-> FALSE, warn |-> FALSE, est |-> 0]
Hoeff(n, conf) == FSqrt(FMul(FDiv(1, 2 * n), FLn(FDiv(1, conf))))
(* two samples: the first m of n values against all n *)
HaBound(m, n, conf) == FSqrt(FMul(FDiv(FMul(FDiv(n - m, m), FDiv(1, n)), 2), FLn(FDiv(2, conf))))
HaStep(p, s, x, o) ==
    LET n == s.n + 1
        c == FAdd(s.c, x)
        m0 == IF s.nmin = 0 THEN <<n, c>> ELSE <<s.nmin, s.cmin>>
        x0 == IF s.nmax = 0 THEN <<n, c>> ELSE <<s.nmax, s.cmax>>
        b == Hoeff(n, p.drift)
        lo == FAdd(FDiv(m0[2], m0[1]), Hoeff(m0[1], p.drift))
        hi == FSub(FDiv(x0[2], x0[1]), Hoeff(x0[1], p.drift))
        mn == IF FGe(lo, FAdd(FDiv(c, n), b)) THEN <<n, c>> ELSE m0
        mx == IF FLe(hi, FSub(FDiv(c, n), b)) THEN <<n, c>> ELSE x0
        inc(conf, ob) == mn[1] # n /\ LET d == FSub(FDiv(c, n), FDiv(mn[2], mn[1])) B == HaBound(mn[1], n, conf) IN
                         IF Near(d, B) THEN ob ELSE FGe(d, B)
        chg == inc(p.drift, o.chg)
        wrn == ~chg /\ inc(p.warning, o.warn)
        t == IF chg THEN [HaInit(p) EXCEPT !.ne = n - mn[1], !.ce = FSub(c, mn[2])]
             ELSE [s EXCEPT !.n = n, !.c = c, !.nmin = mn[1], !.cmin = mn[2], !.nmax = mx[1], !.cmax = mx[2]]
        dec == p.two /\ ~chg /\ mx[1] # n /\ FGe(FSub(FDiv(mx[2], mx[1]), FDiv(c, n)), HaBound(mx[1], n, p.drift))
        u == IF dec THEN [HaInit(p) EXCEPT !.ne = n - mx[1], !.ce = FSub(c, mx[2])] ELSE t
    IN IF u.n >= u.ne THEN [u EXCEPT !.ne = 0, !.ce = 0, !.est = FDiv(u.c, u.n), !.chg = chg, !.warn = wrn]
       ELSE [u EXCEPT !.est = FDiv(u.ce, u.ne), !.chg = chg, !.warn = wrn]

(*------------------------------------------------------------ HDDM_W ------*)
(* p.decr: TRUE is the published two-sided test; FALSE is the code as its  *)
(* tests pin it, whose second side is inert.                               *)
Nil == <<>>
HwInit(p) == [tot |-> Nil, a1 |-> Nil, a2 |-> Nil, b1 |-> Nil, b2 |-> Nil, icut |-> "inf", dcut |-> "-inf",
              chg |-> FALSE, warn |-> FALSE, est |-> 0]
Ewma(p, e, x) == IF e = Nil THEN <<x, 1>>
                 ELSE LET a == FSub(1, p.lambda) IN
                      <<FAdd(FMul(p.lambda, x), FMul(a, e[1])), FAdd(Sq(p.lambda), FMul(Sq(a), e[2]))>>
McD(v, conf) == FSqrt(FDiv(FMul(v, FLn(FDiv(1, conf))), 2))
(* second mean above the first by more than the bound *)
Raised(a, b, conf, o) == a # Nil /\ b # Nil /\ Above(FSub(b[1], a[1]), McD(FAdd(a[2], b[2]), conf), o)
HwStep(p, s, x, o) ==
    LET tot == Ewma(p, s.tot, x)
        B == McD(tot[2], p.drift)
        newmin == FLt(FAdd(tot[1], B), s.icut)
        t == IF newmin THEN [s EXCEPT !.tot = tot, !.icut = FAdd(tot[1], B), !.a1 = tot, !.a2 = Nil]
             ELSE [s EXCEPT !.tot = tot, !.a2 = Ewma(p, s.a2, x)]
        chg == Raised(t.a1, t.a2, p.drift, o.chg)
        wrn == ~chg /\ Raised(t.a1, t.a2, p.warning, o.warn)
        newmax == FGt(FSub(tot[1], B), s.dcut)
        u == IF newmax THEN [t EXCEPT !.dcut = FSub(tot[1], B), !.b1 = tot, !.b2 = Nil]
             ELSE [t EXCEPT !.b2 = Ewma(p, t.b2, x)]
        low == p.two /\ p.decr /\ Raised(u.b2, u.b1, p.drift, FALSE)
    IN IF chg THEN [HwInit(p) EXCEPT !.chg = TRUE]
       ELSE IF low THEN [HwInit(p) EXCEPT !.est = -1]
       ELSE [u EXCEPT !.chg = FALSE, !.warn = wrn, !.est = tot[1]]

(*------------------------------------------------------- Page-Hinkley ------*)
PhInit(p) == [n |-> 1, mean |-> 0, sum |-> 0, chg |-> FALSE, warn |-> FALSE, est |-> 0]
PhStep(p, s0, x, o) ==
    LET s == IF s0.chg THEN PhInit(p) ELSE s0
        mean == FAdd(s.mean, FDiv(FSub(x, s.mean), s.n))
        sum == FMax(0, FAdd(FMul(p.alpha, s.sum), FSub(FSub(x, mean), p.delta)))
        n == s.n + 1
    IN [n |-> n, mean |-> mean, sum |-> sum, est |-> mean, warn |-> FALSE,
        chg |-> n >= p.min /\ Above(sum, p.threshold, o.chg)]

DInit(p) == CASE p.det = "DDM" -> DdmInit(p) [] p.det = "EDDM" -> EddmInit(p) [] p.det = "HDDM_A" -> HaInit(p)
              [] p.det = "HDDM_W" -> HwInit(p) [] p.det = "PH" -> PhInit(p)
DStep(p, s, x, o) ==
    CASE p.det = "DDM" -> DdmStep(p, s, x, o) [] p.det = "EDDM" -> EddmStep(p, s, x, o) [] p.det = "HDDM_A" -> HaStep(p, s, x, o)
      [] p.det = "HDDM_W" -> HwStep(p, s, x, o) [] p.det = "PH" -> PhStep(p, s, x, o)

(*------------------------------------------------------------- KSWIN ------*)
(* window: most recent values; the statistic compares the last p.stat of   *)
(* them with p.stat values drawn from the older ones                       *)
KwInit(p) == [w |-> p.data, chg |-> FALSE]
(* does this addition run the test? *)
Tests(p, s) == Len(s.w) >= p.window
Recent(p, s) == LET v == Tail(s.w) IN SubSeq(v, Len(v) - p.stat + 1, Len(v))
Older(p, s) == LET v == Tail(s.w) IN SubSeq(v, 1, Len(v) - p.stat)
KwStep(p, s, x, chg) ==
    [w |-> Append(IF ~Tests(p, s) THEN s.w ELSE IF chg THEN Recent(p, s) ELSE Tail(s.w), x), chg |-> Tests(p, s) /\ chg]
(* exact two-sided two-sample Kolmogorov-Smirnov p-value of D = k/n, equal sizes n:            *)
(* 2 * sum_{i>=1} (-1)^(i-1) C(2n, n - i k) / C(2n, n), the ratio as a product                 *)
RECURSIVE Ratio(_, _, _)
Ratio(n, m, j) == IF j > m THEN 1 ELSE FMul(FDiv(n - j + 1, n + j), Ratio(n, m, j + 1))    \* C(2n, n-m)/C(2n, n)
RECURSIVE KsSum(_, _, _)
KsSum(n, k, i) == IF i * k > n THEN 0
                  ELSE FAdd(FMul(IF i % 2 = 1 THEN 2 ELSE -2, Ratio(n, i * k, 1)), KsSum(n, k, i + 1))
KsP(n, k) == IF k = 0 THEN 1 ELSE FMin(1, KsSum(n, k, 1))
=============================================================================
