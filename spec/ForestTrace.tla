----------------------------- MODULE ForestTrace ------------------------------
EXTENDS Forest, TLC
VARIABLES tr, i, st
(* cfg: p.  fit: ys, ws, taught[j][m] = list of [y, w, cols], fed[j][m] = [warn |-> list, drift |-> list] of what m's detectors were fed;
   ask: proba / pred per question (all alike: the trees are at their roots) *)
FStart(c) == [pairs |-> 0, equal |-> 0, f |-> Forest0(c.p), rows |-> 0, draws |-> [m \in 1..c.p.n |-> 0], same |-> 0, again |-> FALSE, first |-> [m \in 1..c.p.n |-> <<>>]]
SetOf(q) == {q[k] : k \in 1..Len(q)}
(* copies of the row, from the weight it was taught with; -1: not a whole number *)
Copies(p, t, w) == IF t = <<>> THEN 0 ELSE LET u == IF p.kind = "arf" THEN w ELSE 1 IN
                   IF t[1].w > 0 /\ t[1].w % u = 0 THEN t[1].w \div u ELSE -1
Legal(p, c) == c = <<>> \/ (Cardinality(SetOf(c)) = Len(c) /\ Len(c) = SubSize(p) /\ SetOf(c) \subseteq 0..(p.nf - 1))
(* the main tree's lesson, and the background tree's: by the features each of them sees *)
MainIx(m, t) == IF Len(t) = 2 /\ m.cols # <<>> /\ t[1].cols # m.cols /\ t[2].cols = m.cols THEN 2 ELSE 1
Wrong(p, m, t, y, k) ==
    CASE k < 0 -> "a tree is trained with something else than the row's weight times a number of copies"
      [] k > 0 /\ Always(p) /\ k # 1 -> "a tree that should see every row once sees it otherwise"
      [] k = 0 /\ Always(p) -> "a tree that should see every row once sees it otherwise"
      [] Len(t) > 0 /\ Len(t) # (IF m.has THEN 2 ELSE 1) -> "not exactly the tree and its background tree are trained"
      [] \E a \in 1..Len(t) : t[a].y # y \/ t[a].w # t[1].w -> "a tree is trained with another label or weight"
      [] p.kind = "srp" /\ \E a \in 1..Len(t) : ~Legal(p, t[a].cols) -> "a member does not see a subspace of the requested size"
      [] p.kind = "srp" /\ Len(t) > 0 /\ m.cols # <<>> /\ t[MainIx(m, t)].cols # m.cols -> "a member's subspace changes without its being replaced"
      [] p.kind = "srp" /\ Len(t) = 2 /\ m.bgcols # <<>> /\ t[3 - MainIx(m, t)].cols # m.bgcols -> "a background tree's subspace changes"
      [] p.kind = "srp" /\ \E a \in 1..Len(t) : SetOf(t[a].nom) # SetOf(p.nom) \cap SetOf(t[a].cols) -> "a member takes other attributes for nominal than the announced ones it sees"
      [] OTHER -> ""
SeenCols(p, m, t) == IF p.kind # "srp" \/ t = <<>> THEN m
    ELSE LET a == MainIx(m, t) IN [m EXCEPT !.cols = t[a].cols, !.bgcols = IF Len(t) = 2 THEN t[3 - a].cols ELSE @]
(* what the detectors must be fed *)
FedOK(p, m, y, w, k, fed) ==
    IF ~p.drift \/ k = 0 THEN fed.warn = <<>> /\ fed.drift = <<>>
    ELSE /\ Len(fed.drift) = 1 /\ Len(fed.warn) = (IF p.warn THEN 1 ELSE 0)
         /\ LET F == fed.warn \o fed.drift IN
            IF Cls(p) THEN LET b == Taught(p, m, y, k * (IF p.kind = "arf" THEN w ELSE 1)) IN
                           \A a \in 1..Len(F) : FEq(F[a], IF Says(p, b.main) = y THEN 0 ELSE 1)
            ELSE LET n == Standard(m, Raw(p, Says(p, m.main), y)) IN n.loose \/ \A a \in 1..Len(F) : FClose(F[a], n.v, "1e-06")
RECURSIVE Members(_, _, _, _, _)
Members(p, a, e, j, m) ==
    IF m > p.n \/ a.bad # "" THEN a
    ELSE LET t == e.taught[j][m]
             k == Copies(p, t, e.ws[j])
             m0 == SeenCols(p, a.s.f.m[m], t)
             bad == Wrong(p, a.s.f.m[m], t, e.ys[j], k)
         IN IF bad # "" THEN [a EXCEPT !.bad = bad]
            ELSE IF ~FedOK(p, m0, e.ys[j], e.ws[j], k, e.fed[j][m]) THEN [a EXCEPT !.bad = "a detector is not fed the error of its tree"]
            ELSE LET m1 == Force(Row1(p, m0, e.ys[j], e.ws[j], k, IF e.fed[j][m].drift = <<>> THEN 0 ELSE e.fed[j][m].drift[1], a.s.f.t + 1))
                 IN Members(p, [a EXCEPT !.s.f.m[m] = m1, !.s.draws[m] = IF a.s.again THEN @ ELSE @ + k,
                                         !.s.first[m] = IF @ = <<>> THEN m0.cols ELSE @], e, j, m + 1)
RECURSIVE Rows(_, _, _, _)
Rows(p, a, e, j) ==
    IF j > Len(e.ys) \/ a.bad # "" THEN a
    ELSE LET b == Members(p, a, e, j, 1)
             alike == p.n > 1 /\ \A m \in 2..p.n : Copies(p, e.taught[j][m], e.ws[j]) = Copies(p, e.taught[j][1], e.ws[j])
         IN Rows(p, [b EXCEPT !.s.f.t = @ + 1, !.s.rows = IF a.s.again THEN @ ELSE @ + 1, !.s.same = IF alike /\ ~a.s.again THEN @ + 1 ELSE @], e, j + 1)
Col(q, l) == IF l <= Len(q) THEN q[l] ELSE 0
NearTop(v, l) == \A k \in DOMAIN v : FLe(v[k], FAdd(v[l], "1e-09"))
AskOK(p, s, e) ==
    IF e.raised # "" THEN "asking raised " \o e.raised
    ELSE IF ~Cls(p) THEN IF \A q \in 1..Len(e.pred) : FClose(e.pred[q], Value(p, s.f), "1e-07") THEN "" ELSE "the prediction is not the aggregate of the trees' predictions"
    ELSE LET v == Proba(p, s.f) IN
         IF \E q \in 1..Len(e.proba) : \E l \in 1..p.K : ~FClose(Col(e.proba[q], l), v[l], "1e-09") THEN "the probabilities are not the weighted votes of the trees"
         ELSE IF \E q \in 1..Len(e.proba) : Len(e.proba[q]) > p.K \/ ~NearTop(v, e.pred[q] + 1) THEN "the prediction is not the class with the most votes"
         ELSE ""
(* max_features of nf features: how many a node considers *)
Wanted(p) == CASE p.mfkind = "int" -> p.mf
               [] p.mfkind = "float" -> FTrunc(FMul(p.mf, p.nf))
               [] p.mf \in {"auto", "sqrt"} -> FRound(FSqrt(p.nf))
               [] p.mf = "log2" -> FRound(FLog2(p.nf))
               [] OTHER -> p.nf
Considered(p) == FMin(p.nf, FMax(1, IF FLt(Wanted(p), 0) THEN FAdd(Wanted(p), p.nf) ELSE Wanted(p)))
(* attributes are numbered from the most informative; a node splits on the best of those it considers *)
Usable(p) == {a \in 1..p.nf : FLe(a, FAdd(FSub(p.nf, Considered(p)), 1))}
FStep(c, s, e) ==
    CASE e.op = "fit" ->
           LET b == Rows(c.p, [s |-> s, bad |-> ""], e, 1) IN
           [ok |-> IF e.raised # "" THEN "training raised " \o e.raised ELSE IF e.odd # "" THEN e.odd ELSE b.bad, st |-> b.s]
      [] e.op = "ask" -> [ok |-> AskOK(c.p, s, e), st |-> s]
      [] e.op = "reset" -> [ok |-> "", st |-> [s EXCEPT !.f = Forest0(c.p), !.again = TRUE]]      \* (a seeded ensemble draws the same numbers again)
      (* initial subspaces of many ensembles: each possible one turns up *)
      [] e.op = "subspaces" -> [ok |-> IF Cardinality({SetOf(e.seen[k]) : k \in 1..Len(e.seen)}) = Choose(c.p.nf, SubSize(c.p)) THEN ""
                                       ELSE "the subspaces are not drawn from all combinations of features", st |-> s]
      [] e.op = "renewed" -> [ok |-> "", st |-> IF e.later = <<>> THEN s ELSE [s EXCEPT !.pairs = @ + 1, !.equal = IF \A k \in 1..Len(e.later) : e.later[k] = e.first THEN @ + 1 ELSE @]]
      [] e.op = "considered" -> [ok |-> IF Len(e.seen) # c.p.n THEN "not one tree per member"
                                        ELSE IF \E k \in 1..c.p.n : Len(e.seen[k]) # 1 THEN "a tree does not split where its data are informative"
                                        ELSE IF {e.seen[k][1] : k \in 1..c.p.n} # Usable(c.p) THEN "a tree's node does not consider max_features features, drawn anew"
                                        ELSE "", st |-> s]
Expected(p) == IF Always(p) THEN 1 ELSE p.lam
FFinish(c, s) ==
    IF c.p.kind = "srp" /\ c.p.n <= Choose(c.p.nf, SubSize(c.p)) /\ c.p.nf <= 20 /\ SubSize(c.p) < c.p.nf /\ s.rows > 0
       /\ \E a, b \in 1..c.p.n : a # b /\ s.first[a] # <<>> /\ s.first[b] # <<>> /\ SetOf(s.first[a]) = SetOf(s.first[b])
    THEN "two members have the same subspace although there are enough"
    ELSE IF s.pairs >= 8 /\ s.equal = s.pairs THEN "a background tree draws the features of the tree it may replace"
    ELSE IF s.rows < 60 THEN ""
    ELSE IF \E m \in 1..c.p.n : FGt(FAbs(FSub(s.draws[m], s.rows * Expected(c.p))), FAdd(3, FMul(6, FSqrt(s.rows * Expected(c.p)))))
    THEN "a member is taught rows too often or too seldom"
    ELSE IF c.p.n > 1 /\ ~Always(c.p) /\ s.same * 10 > s.rows * 9 THEN "members are all taught the same copies" ELSE ""
INSTANCE TraceCheck WITH Start <- FStart, Step <- FStep, Finish <- FFinish
=============================================================================
