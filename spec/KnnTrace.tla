------------------------------ MODULE KnnTrace -------------------------------
EXTENDS Knn, TLC
VARIABLES tr, i, st
MaxOf(S) == CHOOSE a \in S : \A b \in S : a >= b
ColsOK(s, n) == LET base == s.announced \cup {s.w[j].y : j \in 1..Len(s.w)} IN
                n >= MaxOf(base) + 1 /\ n <= MaxOf(s.announced \cup s.seen) + 1
QOK(c, s, e) ==
    IF Len(e.pred) # Len(e.X) THEN "not one prediction per row"
    ELSE IF c.kind = "reg" THEN
       IF \E q \in 1..Len(e.X) : IF Ready(c, s) THEN ~RegOK(s.w, c, Near(c, s.w, e.X[q]), e.pred[q]) ELSE ~FEq(e.pred[q], 0)
       THEN "the prediction is not the aggregate of the k nearest targets in the window" ELSE ""
    ELSE IF ~Ready(c, s) THEN
       IF Len(e.proba) = Len(e.X) /\ \A q \in 1..Len(e.X) : FEq(e.pred[q], 0) /\ \A j \in 1..Len(e.proba[q]) : FEq(e.proba[q][j], 0)
       THEN "" ELSE "the answer of a learner with fewer than k samples is not zero"
    ELSE LET n == [q \in 1..Len(e.X) |-> Near(c, s.w, e.X[q])] IN
       IF Len(e.proba) # Len(e.X) THEN "not one row of probabilities per row"
       ELSE IF \E q \in 1..Len(e.X) : ~ColsOK(s, Len(e.proba[q])) THEN "the columns are not the known classes"
       ELSE IF \E q \in 1..Len(e.X) : ~VotesOK(s.w, c, n[q], e.proba[q]) THEN "the probabilities are not the votes of the k nearest samples in the window"
       ELSE IF \E q \in 1..Len(e.X) : ~LabelOK(s.w, c, n[q], e.pred[q]) THEN "the prediction is not the majority of the k nearest samples in the window"
       ELSE ""
KStep(c, s, e) ==
    CASE e.op = "fit" -> LET t == Fit(c, s, e.X, e.y, {e.cls[j] : j \in 1..Len(e.cls)}, e.width) IN
           [ok |-> IF e.size >= 0 /\ e.size # Len(t.w) THEN "the memory does not hold exactly the newest samples" ELSE "", st |-> t]
      [] e.op = "query" -> [ok |-> QOK(c, s, e), st |-> s]
      [] e.op = "reset" -> [ok |-> "", st |-> Reset(s)]
KFinish(c, s) == ""
KStart(c) == KnnInit
INSTANCE TraceCheck WITH Start <- KStart, Step <- KStep, Finish <- KFinish
=============================================================================
