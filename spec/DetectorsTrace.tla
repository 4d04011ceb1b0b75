---------------------------- MODULE DetectorsTrace ----------------------------
EXTENDS Detectors
VARIABLES tr, i, st
XStart(c) == IF c.det = "KSDRAW" THEN [hits |-> 0, n |-> 0, tab |-> [k \in 0..c.stat |-> KsP(c.stat, k)]] ELSE IF c.det = "KSWIN" THEN [s |-> KwInit(c), tab |-> [k \in 0..c.stat |-> KsP(c.stat, k)]] ELSE DInit(c)
Below(q, a) == Cardinality({k \in 1..Len(q) : FLt(q[k], a)})
AboveCnt(q, a) == Cardinality({k \in 1..Len(q) : FGt(q[k], a)})
(* the values of n*D that the draw allows: everything, unless the older part leaves no choice *)
Feasible(c, s) ==
    LET o == Older(c, s)
        r == Recent(c, s)
        big(a, b) == IF a > b THEN a ELSE b
    IN IF o = <<>> THEN {} ELSE
       IF \A k \in 1..Len(o) : FEq(o[k], o[1]) THEN {big(Below(r, o[1]), AboveCnt(r, o[1]))}
       ELSE IF (\A k \in 1..Len(o) : Below(r, o[k]) = 0 /\ AboveCnt(r, o[k]) = Len(r))
               \/ (\A k \in 1..Len(o) : Below(r, o[k]) = Len(r) /\ AboveCnt(r, o[k]) = 0) THEN {c.stat}
       ELSE 0..c.stat
KwOK(c, z, e) ==
    LET s == z.s
        ks == {k \in Feasible(c, s) : FClose(e.p, z.tab[k], "1e-6")}
        sig(k) == FLe(z.tab[k], c.alpha) /\ FGt(FDiv(k, c.stat), "0.1")
    IN IF ~Tests(c, s) THEN IF Eq(e.chg, FALSE) THEN "" ELSE "a change is reported before the window is full"
       ELSE IF ks = {} THEN "the p-value is not that of the two parts of the window"
       ELSE IF \E k \in ks : Eq(e.chg, sig(k)) \/ Near(z.tab[k], c.alpha) THEN ""
       ELSE "change is reported against the significance of the test"
(* Comparison values are drawn evenly from the whole older part: with the recent values all 1 and one zone of the older
   part 0, n*D is the number of draws that hit that zone. *)
DrawK(c, z, e) == LET ks == {k \in 0..c.stat : FClose(e.p, z.tab[k], "1e-6")} IN IF ks = {} THEN 0 - 1 ELSE CHOOSE k \in ks : \A j \in ks : k <= j
XStep(c, z, e) ==
    IF c.det = "KSWIN" THEN
       CASE e.op = "add" ->
              LET w == KwOK(c, z, e)
                  t == KwStep(c, z.s, e.x, e.chg)
              IN [ok |-> IF w # "" THEN w ELSE IF ~Eq(e.w, t.w) THEN "the window does not hold exactly the most recent values" ELSE "",
                  st |-> [z EXCEPT !.s = t]]
         [] e.op = "reset" -> [ok |-> IF Eq(e.w, <<>>) /\ Eq(e.chg, FALSE) THEN "" ELSE "reset does not empty the window",
                               st |-> [z EXCEPT !.s = [w |-> <<>>, chg |-> FALSE]]]
    ELSE IF c.det = "KSDRAW" THEN
       LET k == DrawK(c, z, e) IN
       [ok |-> IF k < 0 THEN "the p-value is not that of the two parts of the window" ELSE "", st |-> [z EXCEPT !.hits = @ + k, !.n = @ + 1]]
    ELSE
       CASE e.op = "add" ->
              LET t == DStep(c, z, e.x, [chg |-> Eq(e.chg, TRUE), warn |-> Eq(e.warn, TRUE)]) IN
              [ok |-> IF ~Eq(e.chg, t.chg) THEN IF t.chg THEN "a change is not reported" ELSE "a change is reported without evidence"
                      ELSE IF ~Eq(e.warn, t.warn) THEN "the warning zone is not reported correctly"
                      ELSE IF ~FClose(e.est, t.est, "1e-8") THEN "the estimation is wrong" ELSE "",
               st |-> t]
         [] e.op = "reset" -> [ok |-> IF Eq(e.chg, FALSE) /\ Eq(e.warn, FALSE) THEN "" ELSE "flags survive a reset", st |-> DInit(c)]
XFinish(c, z) ==
    IF c.det = "KSDRAW" THEN IF FLt(FDiv(z.hits, z.n * c.stat), c.lo) \/ FGt(FDiv(z.hits, z.n * c.stat), c.hi)
                             THEN "the comparison sample is not drawn evenly from the older part of the window" ELSE ""
    ELSE ""
INSTANCE TraceCheck WITH Start <- XStart, Step <- XStep, Finish <- XFinish
=============================================================================
