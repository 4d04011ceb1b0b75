------------------------------- MODULE Report -------------------------------
(***************************************************************************)
(* What an evaluator reports.  It accumulates results (true, predicted) per *)
(* model; when a report is due it writes one row with, for every metric and *)
(* model, the value over all results so far and over the last c.W results. *)
(***************************************************************************)
EXTENDS Metrics
RInit(c) == [count |-> c.pre, n |-> 0, upd |-> 0, due |-> <<>>, rows |-> 0,
             cum |-> [m \in 1..c.models |-> IF c.kind = "class" THEN CInit(2) ELSE [h |-> <<>>]],
             win |-> [m \in 1..c.models |-> IF c.kind = "class" THEN CInit(2) ELSE [h |-> <<>>]]]
Put(c, s, W, r) == IF c.kind = "class" THEN LET q == CAdd(s, W, r.t, r.p, 1) IN [q EXCEPT !.h = IF W = 0 THEN @ ELSE Lst(@, W)]
                   ELSE [s EXCEPT !.h = LET g == Append(@, r) IN IF W = 0 THEN g ELSE Lst(g, W)]
RECURSIVE PutAll(_, _, _, _)
PutAll(c, s, W, rs) == IF rs = <<>> THEN s ELSE PutAll(c, Put(c, s, W, rs[1]), W, Tail(rs))
(* the next n results of every model are in *)
Results(c, s, n) ==
    LET take(m) == [k \in 1..n |-> [t |-> c.res[m][s.n + k][1], p |-> c.res[m][s.n + k][2]]] IN
    [s EXCEPT !.n = @ + n, !.cum = [m \in 1..c.models |-> PutAll(c, s.cum[m], 0, take(m))],
                           !.win = [m \in 1..c.models |-> PutAll(c, s.win[m], c.W, take(m))]]
DueNow(c, s) == \/ c.method = "holdout"
                \/ s.count % c.wait = 0
                \/ s.count >= (IF c.method = "delayed" THEN c.limit ELSE c.budget)
                \/ s.count > (s.upd + 1) * c.wait
Value(c, s, k) ==
    LET h == s.h IN
    CASE k = "accuracy" -> Accuracy(h) [] k = "kappa" -> Kappa(h, s.K) [] k = "kappa_t" -> KappaT(h)
      [] k = "kappa_m" -> KappaM(h) [] k = "f1" -> F1(h, s.K) [] k = "precision" -> Precision(h, s.K)
      [] k = "recall" -> Recall(h, s.K) [] k = "gmean" -> GMean(h, s.K)
      [] k = "hamming_score" -> Hamming(h, c.L) [] k = "hamming_loss" -> FSub(1, Hamming(h, c.L))
      [] k = "exact_match" -> ExactMatch(h) [] k = "j_index" -> Jaccard(h, 0)
      [] k = "mean_square_error" -> MSE(h) [] k = "mean_absolute_error" -> MAE(h)
      [] k = "average_mean_square_error" -> AMSE(h) [] k = "average_mean_absolute_error" -> AMAE(h)
      [] k = "average_root_mean_square_error" -> ARMSE(h)
=============================================================================
