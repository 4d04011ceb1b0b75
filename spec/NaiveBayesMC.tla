----------------------------- MODULE NaiveBayesMC -----------------------------
(* Exhaustive: every stream of T weighted rows of one nominal and one numeric attribute.   *)
EXTENDS ClassStats, TLC
CONSTANTS T
VARIABLES s, rows
Nom == {1}
Init == s = [n |-> Empty, obs |-> <<>>] /\ rows = <<>>
Next == Len(rows) < T /\ \E a \in 0..1, b \in 0..2, y \in 0..1, w \in {1, 2} :
          /\ s' = Force([n |-> NLearn(s.n, y, w), obs |-> ObsLearn(Nom, s.obs, << a, b >>, y, w)])
          /\ rows' = Append(rows, << a, b, y, w >>)
Of(c) == SelectSeq(rows, LAMBDA r : r[3] = c)
WSum(q, F(_)) == FSum([j \in 1..Len(q) |-> FMul(q[j][4], F(q[j]))])
One(r) == 1
Val(r) == r[2]
(* the incremental statistics are those of the whole multiset of rows: class weights, means, variances, ranges, value counts *)
Classes == DOMAIN s.n = {rows[j][3] : j \in 1..Len(rows)}
Exact == \A c \in DOMAIN s.n : LET q == Of(c) g == s.obs[2][c]
                                   mean == FDiv(WSum(q, Val), WSum(q, One))
                                   sq == WSum(q, LAMBDA r : FMul(FSub(r[2], mean), FSub(r[2], mean)))
            IN /\ FClose(s.n[c], WSum(q, One), "1e-12")
               /\ FClose(g.w, s.n[c], "1e-12") /\ FClose(g.m, mean, "1e-12") /\ FClose(g.v, sq, "1e-11")
               /\ \A j \in 1..Len(q) : FLe(g.lo, q[j][2]) /\ FGe(g.hi, q[j][2])
               /\ \A a \in 0..1 : FClose(Get(s.obs[1][c], a), WSum(q, LAMBDA r : IF r[1] = a THEN 1 ELSE 0), "1e-12")
(* answers are distributions *)
Proper == \A a \in 0..2, b \in 0..2 : LET v == Norm(NB(Nom, s.n, s.obs, << a, b >>)) IN
             (\A c \in DOMAIN v : FGe(v[c], 0)) /\ (FEq(FSumF(v), 0) \/ FClose(FSumF(v), 1, "1e-12"))
=============================================================================
