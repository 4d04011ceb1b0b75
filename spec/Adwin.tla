-------------------------------- MODULE Adwin --------------------------------
(***************************************************************************)
(* ADWIN: an adaptive window over a real-valued stream.  The window is the *)
(* sequence w of its most recent values, summarised by an exponential      *)
(* histogram: rows[1] holds buckets of 1 value, rows[2] of 2, ...; within  *)
(* a row the oldest bucket comes first, and all of row r+1 is older than   *)
(* row r.  Every bucket has the total t and the (sum of squared deviations)*)
(* v of its values.                                                        *)
(* Parameters p: maxb (buckets per row), clock, minwin, minlen, delta, and *)
(* exactvar, fullscan: both TRUE in the published algorithm; the           *)
(* implementation, as its tests pin it, drops the variance of the older    *)
(* bucket when merging (exactvar FALSE) and never moves the youngest       *)
(* bucket of a row to the old side of a cut (fullscan FALSE).              *)
(***************************************************************************)
EXTENDS Integers, Sequences, Real64
AInit == [w |-> <<>>, rows |-> <<<<>>>>, total |-> 0, var |-> 0, width |-> 0, time |-> 0, ndet |-> 0]
RECURSIVE Pow2(_)
Pow2(r) == IF r = 0 THEN 1 ELSE 2 * Pow2(r - 1)
SqDev(n1, u1, n2, u2) ==      \* n1 n2 (m1 - m2)^2 / (n1 + n2) for two groups with totals u1, u2
    LET d == FSub(FDiv(u1, n1), FDiv(u2, n2)) IN FDiv(FMul(FMul(n1, n2), FMul(d, d)), FAdd(n1, n2))
RECURSIVE Compress(_, _, _)
Compress(p, rows, r) ==
    IF r > Len(rows) \/ Len(rows[r]) < p.maxb + 1 THEN rows
    ELSE LET a == rows[r][1]
             b == rows[r][2]
             m == [t |-> FAdd(a.t, b.t), v |-> FAdd(IF p.exactvar THEN FAdd(a.v, b.v) ELSE b.v, SqDev(Pow2(r - 1), a.t, Pow2(r - 1), b.t))]
             up == IF r < Len(rows) THEN [rows EXCEPT ![r + 1] = Append(@, m)] ELSE Append(rows, <<m>>)
         IN Compress(p, [up EXCEPT ![r] = SubSeq(@, 3, Len(@))], r + 1)
Add(p, s, x) ==
    LET n == s.width + 1
        d == FSub(x, FDiv(s.total, n - 1))
        inc == IF n = 1 THEN 0 ELSE FDiv(FMul(n - 1, FMul(d, d)), n)
    IN [s EXCEPT !.w = Append(@, x), !.width = n, !.total = FAdd(@, x), !.var = FAdd(@, inc),
                 !.rows = Compress(p, [@ EXCEPT ![1] = Append(@, [t |-> x, v |-> 0])], 1)]
(* forget the oldest bucket *)
Drop(s) ==
    LET r == Len(s.rows)
        n1 == Pow2(r - 1)
        b == s.rows[r][1]
        n == s.width - n1
        tot == FSub(s.total, b.t)
        rest == SubSeq(s.rows[r], 2, Len(s.rows[r]))
    IN [s EXCEPT !.w = SubSeq(@, n1 + 1, Len(@)), !.width = n, !.total = tot,
                 !.var = FSub(@, FAdd(b.v, SqDev(n1, b.t, n, tot))),
                 !.rows = IF rest = <<>> THEN SubSeq(@, 1, r - 1) ELSE [@ EXCEPT ![r] = rest]]
Epsilon(p, s, n0, n1) ==
    LET dd == FLn(FDiv(FMul(2, FLn(s.width)), p.delta))
        m == FAdd(FDiv(1, n0 - p.minlen + 1), FDiv(1, n1 - p.minlen + 1))
    IN FAdd(FSqrt(FMul(FMul(2, m), FMul(FDiv(s.var, s.width), dd))), FMul(FMul(FDiv(2, 3), dd), m))
(* buckets, oldest first, that may be moved to the old side of a cut *)
RECURSIVE Movable(_, _, _)
Movable(p, rows, r) == IF r = 0 THEN <<>>
    ELSE LET q == [k \in 1..(IF p.fullscan THEN Len(rows[r]) ELSE Len(rows[r]) - 1) |-> [n |-> Pow2(r - 1), t |-> rows[r][k].t]]
         IN q \o Movable(p, rows, r - 1)
(* "yes" if some cut separates parts with significantly different means, "no" otherwise, *)
(* "maybe" when the only separating cuts are too close to call in floating point        *)
RECURSIVE Cut(_, _, _, _, _, _)
Cut(p, s, bs, n0, u0, acc) ==
    IF bs = <<>> THEN acc
    ELSE LET m0 == n0 + bs[1].n
             v0 == FAdd(u0, bs[1].t)
             m1 == s.width - m0
             v1 == FSub(s.total, v0)
         IN IF m1 <= 0 THEN acc
            ELSE IF m0 < p.minlen \/ m1 < p.minlen THEN Cut(p, s, Tail(bs), m0, v0, acc)
            ELSE LET a == FAbs(FSub(FDiv(v0, m0), FDiv(v1, m1)))
                     e == Epsilon(p, s, m0, m1)
                 IN IF FClose(a, e, "1e-9") THEN Cut(p, s, Tail(bs), m0, v0, "maybe")
                    ELSE IF FGt(a, e) THEN "yes" ELSE Cut(p, s, Tail(bs), m0, v0, acc)
HasCut(p, s) == Cut(p, s, Movable(p, s.rows, Len(s.rows)), 0, 0, "no")
(* shrink while some cut is significant; target: the width observed (decides "maybe") *)
RECURSIVE Shrink(_, _, _)
Shrink(p, s, target) == LET c == HasCut(p, s) IN
    IF c = "yes" \/ (c = "maybe" /\ s.width > target) THEN Shrink(p, Drop(s), target) ELSE s
Checks(p, s) == (s.time + 1) % p.clock = 0 /\ s.width > p.minwin
Detect(p, s, target) ==
    LET t == IF Checks(p, s) THEN Shrink(p, s, target) ELSE s IN
    [t EXCEPT !.time = s.time + 1, !.ndet = IF t.width < s.width THEN @ + 1 ELSE @]
Estimation(s) == IF s.width = 0 THEN 0 ELSE FDiv(s.total, s.width)
(* reference values over the window itself *)
Mean(w) == FDiv(FSum(w), Len(w))
Var(w) == FDiv(FSum([k \in 1..Len(w) |-> LET d == FSub(w[k], Mean(w)) IN FMul(d, d)]), Len(w))
=============================================================================
