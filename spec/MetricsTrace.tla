---------------------------- MODULE MetricsTrace ----------------------------
(* cfg: kind ("class", "label", "reg", "mreg"), W (window, 0 = cumulative), *)
(* n (initial classes / labels).  Events: add, ask (all metrics), reset.    *)
EXTENDS Metrics
VARIABLES tr, i, st

T == "1e-9"
Fresh(c) == IF c.kind = "class" THEN CInit(c.n) ELSE [h |-> <<>>]
Keep(c, h) == IF c.W = 0 THEN h ELSE Lst(h, c.W)
(* weight-free kinds *)
Add(c, s, e) == IF c.kind = "class" THEN LET q == CAdd(s, c.W, e.t, e.p, e.w) IN [q EXCEPT !.h = Keep(c, @)]
                ELSE [s EXCEPT !.h = Keep(c, Append(@, [t |-> e.t, p |-> e.p]))]

Want(c, s) ==
    LET h == s.h IN
    CASE c.kind = "class" ->
           << <<"accuracy", Accuracy(h)>>, <<"kappa", Kappa(h, s.K)>>, <<"kappa_t", KappaT(h)>>, <<"kappa_m", KappaM(h)>>,
              <<"precision", Precision(h, s.K)>>, <<"recall", Recall(h, s.K)>>, <<"f1", F1(h, s.K)>>,
              <<"geometric_mean", GMean(h, s.K)>>, <<"majority_class", Majority(h, s.K)>>, <<"n_samples", Len(h)>>,
              <<"n_classes", Cardinality(s.K)>>, <<"last_true", s.lt>>, <<"last_pred", s.lp>> >>
      [] c.kind = "label" ->
           << <<"hamming_score", Hamming(h, c.L)>>, <<"hamming_loss", FSub(1, Hamming(h, c.L))>>,
              <<"exact_match", ExactMatch(h)>>, <<"jaccard", Jaccard(h, 0)>>, <<"n_samples", Len(h)>> >>
      [] c.kind = "reg" -> << <<"mse", MSE(h)>>, <<"mae", MAE(h)>>, <<"n_samples", Len(h)>> >>
      [] c.kind = "mreg" -> << <<"amse", AMSE(h)>>, <<"amae", AMAE(h)>>, <<"armse", ARMSE(h)>>, <<"n_samples", Len(h)>> >>
PerClass(s, e) ==
    LET h == s.h IN
    \A k \in 1..Len(e.cls) :
        LET q == e.cls[k] IN
        /\ FClose(q[2], PrecisionOf(h, q[1]), T) /\ FClose(q[3], RecallOf(h, q[1]), T) /\ FClose(q[4], F1Of(h, q[1]), T)
Conf(s, e) == \A k \in 1..Len(e.conf) :
        FClose(e.conf[k][3], WSum(s.h, LAMBDA r : r.t = e.conf[k][1] /\ r.p = e.conf[k][2]), T)

MStart(c) == Fresh(c)
MStep(c, s, e) ==
    CASE e.op = "add" -> [ok |-> "", st |-> Add(c, s, e)]
      [] e.op = "reset" -> [ok |-> "", st |-> Fresh(c)]
      [] e.op = "ask" ->
           LET w == Want(c, s)
               badk == {k \in 1..Len(w) : ~(HasField(e.m, w[k][1]) /\ FClose(e.m[w[k][1]], w[k][2], c.tol))}
           IN [ok |-> IF badk # {} THEN LET k == CHOOSE k \in badk : TRUE IN
                          "reported " \o w[k][1] \o " is not that of the results it covers"
                      ELSE IF c.kind = "class" /\ ~PerClass(s, e) THEN "a per-class score is not that of the results it covers"
                      ELSE IF c.kind = "class" /\ ~Conf(s, e) THEN "the confusion matrix does not count the results it covers"
                      ELSE "",
               st |-> s]
      [] e.op = "fn" ->      \* the plain functions over two label matrices
           LET h == [k \in 1..Len(e.t) |-> [t |-> e.t[k], p |-> e.p[k]]] IN
           [ok |-> IF ~FClose(e.hamming, Hamming(h, Len(e.t[1])), T) THEN "hamming_score function"
                   ELSE IF ~FClose(e.exact, ExactMatch(h), T) THEN "exact_match function"
                   ELSE IF ~FClose(e.j, Jaccard(h, 1), T) THEN "j_index function" ELSE "",
            st |-> s]
MFinish(c, s) == ""
INSTANCE TraceCheck WITH Start <- MStart, Step <- MStep, Finish <- MFinish
=============================================================================
