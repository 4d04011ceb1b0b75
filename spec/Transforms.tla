------------------------------ MODULE Transforms -------------------------------
(***************************************************************************)
(* Stream transforms and pipelines.  A transform is a record t:            *)
(*   kind "std" | "minmax" | "clean" | "onehot" | "count" | "none"         *)
(*   size    rows in the window (std, minmax, clean)                       *)
(*   miss    values that stand for missing ones (beside nan), how: the     *)
(*           strategy, new: the replacement value (clean)                  *)
(*   groups  sequence of sequences of attribute numbers, from 0 (onehot)   *)
(* and its state w: the window (or, "count": the number of rows learnt).   *)
(* "count" is a scripted transform: it adds the number of rows learnt.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Real64

State0(t) == IF t.kind = "count" THEN 0 ELSE <<>>
LastRows(q, n) == IF Len(q) <= n THEN q ELSE SubSeq(q, Len(q) - n + 1, Len(q))
Windowed(t) == t.kind \in {"std", "minmax"} \/ (t.kind = "clean" /\ t.how \in {"mean", "median", "mode"})
Missing(t, v) == FIsNaN(v) \/ \E k \in 1..Len(t.miss) : FEq(v, t.miss[k])
Column(w, j) == [k \in 1..Len(w) |-> w[k][j]]

(* ---- standard scaler: by mean and deviation of the rows before it in the window ---- *)
Known(q) == SelectSeq(q, LAMBDA v : ~FIsNaN(v))
Mean(q) == FDiv(FSum(q), Len(q))
Dev(q) == LET m == Mean(q) IN FSqrt(FDiv(FSum([k \in 1..Len(q) |-> LET d == FSub(q[k], m) IN FMul(d, d)]), Len(q)))
Standard(w, v, j) == LET q == Column(w, j) IN
    IF q = <<>> THEN v ELSE LET d == Dev(q) IN FDiv(FSub(v, Mean(q)), IF FLt(d, FMul("1e-13", FAdd(1, FAbs(Mean(q))))) THEN 1 ELSE d)
(* ---- min-max scaler: the position between the smallest and the largest value in the window ---- *)
Least(q) == q[FArgSort(q)[1]]
Most(q) == q[FArgSort(q)[Len(q)]]
Position(w, v, j) == LET q == Column(w, j) IN
    IF q = <<>> THEN v ELSE IF FEq(Least(q), Most(q)) THEN 0 ELSE FDiv(FSub(v, Least(q)), FSub(Most(q), Least(q)))
(* (the position, mapped back: what WindowedMinmaxScaler gives, see F17) *)
Back(w, v, j) == LET q == Column(w, j) IN IF q # <<>> /\ FEq(Least(q), Most(q)) THEN 0 ELSE v
(* ---- missing values: from the known values of the window, the row itself being the last of it ---- *)
Middle(q) == LET s == FArgSort(q) n == Len(q) IN IF n % 2 = 1 THEN q[s[n \div 2 + 1]] ELSE FDiv(FAdd(q[s[n \div 2]], q[s[n \div 2 + 1]]), 2)
Times(q, v) == Cardinality({k \in 1..Len(q) : FEq(q[k], v)})
Modes(q) == {q[k] : k \in {k \in 1..Len(q) : \A l \in 1..Len(q) : Times(q, q[l]) <= Times(q, q[k])}}
Substitutes(t, w, j) ==
    LET q == SelectSeq(Column(w, j), LAMBDA v : ~Missing(t, v)) IN
    CASE t.how = "zero" -> {0}
      [] t.how = "custom" -> {t.new}
      [] q = <<>> -> {t.new}
      [] t.how = "mean" -> {Mean(q)}
      [] t.how = "median" -> {Middle(q)}
      [] OTHER -> Modes(q)
(* ---- one-hot groups to categories: the first attribute of a group gives its place, the first 1 in it its category ---- *)
InGroup(t, i) == {g \in 1..Len(t.groups) : \E k \in 1..Len(t.groups[g]) : t.groups[g][k] = i}
Lead(t, g) == CHOOSE i \in {t.groups[g][k] : k \in 1..Len(t.groups[g])} : \A k \in 1..Len(t.groups[g]) : i <= t.groups[g][k]
Category(t, g, x) == LET on == {k \in 1..Len(t.groups[g]) : FEq(x[t.groups[g][k] + 1], 1)} IN
                     IF on = {} THEN Len(t.groups[g]) ELSE (CHOOSE k \in on : \A l \in on : k <= l) - 1
RECURSIVE Coded(_, _, _)
Coded(t, x, i) ==
    IF i >= Len(x) THEN <<>>
    ELSE LET G == InGroup(t, i) IN
         IF G = {} THEN <<x[i + 1]>> \o Coded(t, x, i + 1)
         ELSE LET g == CHOOSE g \in G : TRUE IN IF Lead(t, g) = i THEN <<Category(t, g, x)>> \o Coded(t, x, i + 1) ELSE Coded(t, x, i + 1)

(* the window after a row; and whether y may come out for x (w: before, w1: after) *)
After(t, w, x) == IF Windowed(t) THEN LastRows(Append(w, x), t.size) ELSE w
Near(a, b) == FClose(a, b, "1e-07")
Fits(t, w, w1, x, y, strict) ==
    CASE t.kind = "std" -> Len(y) = Len(x) /\ \A j \in 1..Len(x) : Near(y[j], Standard(w, x[j], j))
      [] t.kind = "minmax" -> Len(y) = Len(x) /\ \A j \in 1..Len(x) : Near(y[j], Position(w, x[j], j)) \/ (~strict /\ Near(y[j], Back(w, x[j], j)))
      [] t.kind = "clean" -> Len(y) = Len(x) /\ \A j \in 1..Len(x) : IF Missing(t, x[j]) THEN \E s \in Substitutes(t, w1, j) : Near(y[j], s) ELSE FEq(y[j], x[j])
      [] t.kind = "onehot" -> LET c == Coded(t, x, 0) IN Len(y) = Len(c) /\ \A j \in 1..Len(c) : FEq(y[j], c[j])
      [] t.kind = "count" -> Len(y) = Len(x) /\ \A j \in 1..Len(x) : FEq(y[j], FAdd(x[j], w))
      [] OTHER -> y = x
(* what comes out, where that is settled (mode: the smallest of the most frequent, minmax: as it is) *)
One(t, w, w1, x) ==
    CASE t.kind = "std" -> [j \in 1..Len(x) |-> Standard(w, x[j], j)]
      [] t.kind = "minmax" -> [j \in 1..Len(x) |-> Back(w, x[j], j)]
      [] t.kind = "clean" -> [j \in 1..Len(x) |-> IF Missing(t, x[j]) THEN CHOOSE s \in Substitutes(t, w1, j) : \A u \in Substitutes(t, w1, j) : FLe(s, u) ELSE x[j]]
      [] t.kind = "onehot" -> Coded(t, x, 0)
      [] t.kind = "count" -> [j \in 1..Len(x) |-> FAdd(x[j], w)]
      [] OTHER -> x
(* rows X through t: learning (kept for "count"), then row by row *)
Learnt(t, w, n) == IF t.kind = "count" THEN w + n ELSE w
RECURSIVE Through(_, _, _, _, _)
Through(t, w, X, k, out) ==
    IF k > Len(X) THEN [w |-> w, X |-> out]
    ELSE LET w1 == Force(After(t, w, X[k])) IN Through(t, w1, X, k + 1, Append(out, Force(One(t, w, w1, X[k]))))
RECURSIVE Steps(_, _, _, _, _)
(* through all steps of a pipeline; ws: their states *)
Steps(ts, ws, X, k, mode) ==
    IF k > Len(ts) THEN [ws |-> ws, X |-> X]
    ELSE LET w0 == CASE mode = "learn" -> Learnt(ts[k], ws[k], Len(X))
                     [] mode = "fit" /\ ts[k].kind = "count" -> IF ts[k].fits THEN Len(X) ELSE Learnt(ts[k], ws[k], Len(X))
                     [] OTHER -> ws[k]
             \* a step that has no partial_fit_transform learns the rows and then transforms them
             r == Through(ts[k], w0, X, 1, <<>>)
         IN Steps(ts, [ws EXCEPT ![k] = r.w], r.X, k + 1, mode)
=============================================================================
