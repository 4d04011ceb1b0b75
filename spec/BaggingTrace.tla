----------------------------- MODULE BaggingTrace -----------------------------
EXTENDS Bagging, FiniteSets, TLC
VARIABLES tr, i, st
(* cfg: p.  fit: codes, ys, ws, taught[j][m] = list of [y, w, cls, n] (what member m was taught of row j), resets (member, after row lo, before row hi) *)
BStart(c) == [e |-> Ens0(c.p), done |-> FALSE]
Times(t) == LET F[k \in 0..Len(t)] == IF k = 0 THEN 0 ELSE F[k - 1] + t[k].n IN F[Len(t)]
(* codes are learnt from what the members are taught *)
Codes(p, s, e, j) == IF ~p.coded THEN s
    ELSE [s EXCEPT !.m = [m \in 1..p.n |-> IF e.taught[j][m] = <<>> THEN s.m[m]
                                           ELSE [s.m[m] EXCEPT !.code[e.ys[j] + 1] = IF @ < 0 THEN e.taught[j][m][1].y ELSE @]]]
Wrong(p, s, e, j) ==
    CASE \E m \in 1..p.n : \E k \in 1..Len(e.taught[j][m]) : e.taught[j][m][k].y # Target(p, s.m[m], e.ys[j]) -> "a member is taught another label"
      [] \E m \in 1..p.n : \E k \in 1..Len(e.taught[j][m]) : e.taught[j][m][k].w # (IF p.kind = "lev" THEN 1 ELSE e.ws[j]) -> "a member is taught a row with another weight"
      [] \E m \in 1..p.n : \E k \in 1..Len(e.taught[j][m]) : e.taught[j][m][k].cls # (IF p.coded THEN <<0, 1>> ELSE [l \in 1..p.K |-> l - 1])
            -> "a member is not told the classes"
      [] \E m \in 1..p.n : s.m[m].code # [l \in 1..p.K |-> -1] /\ CodesKnown(p, s) /\ ~Balanced(s.m[m].code) -> "an output code is not balanced"
      [] OTHER -> ""
RowOf(p, e, j) == [code |-> e.codes[j], y |-> e.ys[j], w |-> IF p.kind = "lev" THEN 1 ELSE e.ws[j], stat |-> TRUE]
SynRow(p, s, e, j) == [code |-> e.codes[j], y |-> e.ys[j], w |-> e.ws[j], stat |-> e.ys[j] # 1 \/ s.posx # <<>>,   \* the first positive row has no neighbour
                       syn |-> [m \in 1..p.n |-> [k \in 1..Len(e.syn[j][m]) |-> e.syn[j][m][k].code]]]
(* a synthetic row: on the line through the row and an earlier positive row, not further away from the row than that one;       *)
(* p.near: towards one of the five positive rows nearest to it (SMOTE)                                                            *)
OnLine(x, q, z, sg) == LET g == FDiv(FSub(z[2], x[2]), FSub(x[2], q[2])) IN
    /\ FGe(FMul(sg, g), 0) /\ FLe(FMul(sg, g), 1)
    /\ \A a \in 1..Len(x) : FClose(z[a], FAdd(x[a], FMul(g, FSub(x[a], q[a]))), "1e-06")
Nearer(x, q, P) == {k \in 1..Len(P) : FLt(FSqDist(x, P[k]), FSqDist(x, q))}
SynOK(p, P, x, z) == IF P = <<>> THEN FCloseSeq(z, x, "1e-09")
                     ELSE IF p.near THEN \E k \in 1..Len(P) : Cardinality(Nearer(x, P[k], P)) < 5 /\ OnLine(x, P[k], z, -1)
                     ELSE \E k \in 1..Len(P) : OnLine(x, P[k], z, 1) \/ OnLine(x, P[k], z, -1)
RECURSIVE Rows(_, _, _, _)
Rows(p, a, e, j) ==
    IF j > Len(e.codes) \/ a.bad # "" THEN a
    ELSE LET s == Codes(p, a.s, e, j)
             ks == [m \in 1..p.n |-> Times(e.taught[j][m])]
             bad == Wrong(p, s, e, j)
             syn == p.kind = "smote"
             badsyn == IF syn /\ \E m \in 1..p.n : \E k \in 1..Len(e.syn[j][m]) : e.ys[j] # 1 \/ ~SynOK(p, s.posx, e.X[j], e.syn[j][m][k].x)
                       THEN "a synthetic sample does not lie between a positive sample and its neighbour" ELSE ""
             r == Row(p, IF syn /\ e.ys[j] = 1 THEN [s EXCEPT !.posx = Append(@, e.X[j])] ELSE s, IF syn THEN SynRow(p, s, e, j) ELSE RowOf(p, e, j), ks)
             res == [x \in 1..(Len(r.s.resets) - Len(a.s.resets)) |-> [m |-> r.s.resets[Len(a.s.resets) + x], j |-> j]]
         IN Rows(p, [s |-> r.s, bad |-> IF bad # "" THEN bad ELSE IF badsyn # "" THEN badsyn ELSE r.bad, res |-> a.res \o res], e, j + 1)
WholeCall(p, a, e) ==
    LET n == Len(e.codes)
        ks == [m \in 1..p.n |-> Times(e.taught[1][m])]
        s == Call(p, a.s, [j \in 1..n |-> RowOf(p, e, j)], ks)
        bad == IF \E j \in 1..n : Wrong(p, a.s, e, j) # "" THEN Wrong(p, a.s, e, CHOOSE j \in 1..n : Wrong(p, a.s, e, j) # "")
               ELSE IF \E j \in 1..n : \E m \in 1..p.n : Times(e.taught[j][m]) # ks[m] THEN "a member is not taught all rows of a call equally often" ELSE ""
        res == [x \in 1..(Len(s.resets) - Len(a.s.resets)) |-> [m |-> s.resets[Len(a.s.resets) + x], j |-> n]]
    IN [s |-> s, bad |-> bad, res |-> res]
ResetsOK(exp, got) == Len(exp) = Len(got) /\ \A k \in 1..Len(exp) : exp[k].m = got[k].m /\ got[k].lo <= exp[k].j /\ exp[k].j < got[k].hi
Fit(c, s, e) ==
    LET a0 == [s |-> s.e, bad |-> "", res |-> <<>>]
        a == IF c.p.kind = "ozaadwin" THEN WholeCall(c.p, a0, e) ELSE Rows(c.p, a0, e, 1)
    IN [ok |-> CASE s.e.loose -> ""
                 [] e.raised # "" -> "training raised " \o e.raised
                 [] e.odd # "" -> e.odd
                 [] a.bad # "" -> a.bad
                 [] ~a.s.loose /\ ~ResetsOK(a.res, e.resets) -> "not the worst member is reset when a member's error rises, and only then"
                 [] OTHER -> "", st |-> [e |-> a.s, done |-> TRUE]]
Flat(v) == \A l \in 1..Len(v) : FEq(v[l], 0)
Row0(p, q, v) == \* the returned row q against the expected v: as many columns as classes, or one when nothing is known
    IF Len(q) = p.K THEN \A l \in 1..p.K : FClose(q[l], v[l], "1e-07") ELSE Flat(q) /\ Flat(v)
Ask(c, s, e) ==
    LET p == c.p
        V(k) == IF p.coded THEN CodeAnswer(p, s.e, e.codes[k]) ELSE Answer(p, s.e, e.codes[k])
    IN IF s.e.loose \/ (p.coded /\ ~CodesKnown(p, s.e)) THEN ""
       ELSE IF Len(e.proba) # Len(e.codes) \/ Len(e.pred) # Len(e.codes) THEN "not one answer per row"
       ELSE IF \E k \in 1..Len(e.codes) : ~Row0(p, e.proba[k], V(k)) THEN "the probabilities are not the members' probabilities, weighted and added up"
       ELSE IF \E k \in 1..Len(e.codes) : \E l \in 1..p.K : FGt(FSub(V(k)[l], V(k)[e.pred[k] + 1]), "1e-07") THEN "the prediction is not the class with most votes"
       ELSE ""
BStep(c, s, e) ==
    CASE e.op = "fit" -> Fit(c, s, e)
      [] e.op = "ask" -> [ok |-> Ask(c, s, e), st |-> s]
      [] e.op = "reset" -> [ok |-> IF e.raised # "" THEN "reset raised " \o e.raised ELSE "", st |-> [s EXCEPT !.e = [Ens0(c.p) EXCEPT !.dev = s.e.dev, !.draws = s.e.draws]]]
BFinish(c, s) ==
    CASE s.e.loose -> ""
      [] Wild(s.e.dev["mean"], 4) -> "members are taught rows too often or too seldom"
      [] Wild(s.e.dev["spread"], 30) -> "the numbers of times members are taught a row vary too much or too little"
      [] Wild(s.e.dev["zeros"], 4) -> "members skip too many or too few rows"
      [] Wild(s.e.dev["members"], 10) -> "the draws of different members depend on each other"
      [] Wild(s.e.dev["rows"], 10) -> "the draws for successive rows depend on each other"
      [] OTHER -> ""
INSTANCE TraceCheck WITH Start <- BStart, Step <- BStep, Finish <- BFinish
=============================================================================
