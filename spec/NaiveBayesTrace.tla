---------------------------- MODULE NaiveBayesTrace ---------------------------
(* cfg: nom, a sequence of 1-based nominal attributes *)
EXTENDS ClassStats, TLC
VARIABLES tr, i, st
Nom(c) == {c.nom[j] : j \in 1..Len(c.nom)}
Nothing == [n |-> Empty, obs |-> <<>>]
XStart(c) == Nothing
Row(nom, s, x, y, w) == IF FEq(w, 0) THEN s ELSE [n |-> NLearn(s.n, y, w), obs |-> ObsLearn(nom, s.obs, x, y, w)]
RECURSIVE Rows(_, _, _, _)
Rows(nom, s, e, k) == IF k > Len(e.X) THEN s ELSE Rows(nom, Row(nom, s, e.X[k], e.y[k], e.w[k]), e, k + 1)
Obs(nom, s, e) ==
    LET V(k) == Norm(NB(nom, s.n, s.obs, e.X[k])) IN
    CASE \E k \in 1..Len(e.X) : ~SameRow(e.proba[k], V(k)) -> "the class probabilities are not those of naive Bayes on all rows learnt"
      [] \E k \in 1..Len(e.X) : ~SamePred(e.pred[k], V(k)) -> "the prediction is not the most probable class"
      [] OTHER -> ""
XStep(c, s, e) ==
    CASE e.op = "fit" -> [ok |-> IF e.raised # "" THEN "training raised " \o e.raised ELSE "", st |-> Rows(Nom(c), s, e, 1)]
      [] e.op = "ask" -> [ok |-> Obs(Nom(c), s, e), st |-> s]
      [] e.op = "reset" -> [ok |-> "", st |-> Nothing]
XFinish(c, s) == ""
INSTANCE TraceCheck WITH Start <- XStart, Step <- XStep, Finish <- XFinish
=============================================================================
