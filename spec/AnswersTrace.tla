----------------------------- MODULE AnswersTrace -----------------------------
EXTENDS Answers, TLC
VARIABLES tr, i, st
(* cfg: learner, kind, labels, told, unit (probabilities add up to one), width (outputs per row; 0: one) *)
SetOf(s) == {s[k] : k \in 1..Len(s)}
AStart(c) == [k |-> Labels0(c.told, SetOf(c.labels))]
Width(c) == IF c.width = 0 THEN 1 ELSE c.width
Single(c) == c.kind \in {"cls", "bin", "anom"}
AskBad(c, s, e) ==
    CASE e.raised # "" -> "asking raised " \o e.raised
      [] Len(e.p) # e.n -> "not one prediction per row"
      [] \E k \in 1..e.n : Len(e.p[k]) # (IF c.kind = "mtreg" \/ c.kind = "ml" THEN (IF s.k = {} /\ Len(e.p[k]) = 1 THEN 1 ELSE Width(c)) ELSE 1) -> "a prediction has the wrong shape"
      [] \E k \in 1..e.n : \E j \in 1..Len(e.p[k]) : ~FIsFinite(e.p[k][j]) -> "a prediction is not a finite number"
      [] Single(c) /\ \E k \in 1..e.n : ~LabelOK(s.k, e.p[k][1]) -> "a prediction is not a known class"
      [] c.kind = "ml" /\ \E k \in 1..e.n : \E j \in 1..Len(e.p[k]) : ~LabelOK({0, 1}, e.p[k][j]) -> "a prediction is not 0 or 1"
      [] e.has /\ Len(e.q) # e.n -> "not one row of probabilities per row"
      [] e.has /\ \E k \in 1..e.n : Len(e.q[k]) # Len(e.q[1]) -> "rows of probabilities differ in length"
      [] e.has /\ Single(c) /\ \E k \in 1..e.n : ~RowOK(c.unit, c.odds, e.q[k]) -> "probabilities are negative, not finite or do not add up to one"
      [] e.has /\ Single(c) /\ \E k \in 1..e.n : (IF c.bypos THEN Len(e.q[k]) > Len(c.labels) /\ Len(e.q[k]) > 1 ELSE ~ColumnsOK(s.k, e.q[k])) -> "a class that is not known has a positive probability"
      [] e.has /\ Single(c) /\ c.kind # "anom" /\ \E k \in 1..e.n : ~ArgmaxOK(e.q[k], IF c.bypos THEN Cardinality({l \in 1..Len(c.labels) : FLt(c.labels[l], e.p[k][1])}) ELSE e.p[k][1]) -> "the prediction is not a class of largest probability"
      [] OTHER -> ""
AStep(c, s, e) ==
    CASE e.op = "fit" -> [ok |-> IF e.raised = "" THEN "" ELSE "training raised " \o e.raised, st |-> [s EXCEPT !.k = Learn(@, SetOf(e.labels))]]
      [] e.op = "reset" -> [ok |-> "", st |-> s]
      [] e.op = "ask" -> [ok |-> AskBad(c, s, e), st |-> s]
AFinish(c, s) == ""
INSTANCE TraceCheck WITH Start <- AStart, Step <- AStep, Finish <- AFinish
=============================================================================
