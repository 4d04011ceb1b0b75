----------------------------- MODULE AdwinTrace -----------------------------
EXTENDS Adwin
VARIABLES tr, i, st
Tol == "1e-7"
Post(c, s, e) ==
    IF ~Eq(e.width, s.width) THEN "the width is not that of the adaptive window"
    ELSE IF ~FClose(e.total, s.total, Tol) THEN "the total is not that of the values in the window"
    ELSE IF ~FClose(e.est, Estimation(s), Tol) THEN "the estimation is not the mean of the window"
    ELSE IF ~FClose(e.var, IF s.width = 0 THEN 0 ELSE FDiv(s.var, s.width), Tol) THEN "the variance is not that of the window"
    ELSE IF s.width > 0 /\ ~FClose(e.est, Mean(s.w), Tol) THEN "the estimation is not the mean of the most recent values"
    ELSE IF ~Eq(e.ndet, s.ndet) THEN "the number of detections is wrong" ELSE ""
WStep(c, s, e) ==
    CASE e.op = "add" -> LET t == Add(c.p, s, e.x) IN [ok |-> Post(c, t, e), st |-> t]
      [] e.op = "check" ->
           LET t == Detect(c.p, s, e.width)
           IN [ok |-> IF ~Eq(e.change, t.width < s.width)
                      THEN IF Eq(e.change, TRUE) THEN "a change is reported although no cut of the window is significant"
                           ELSE "a significant cut of the window is not reported as a change"
                      ELSE IF ~Eq(e.inchange, t.width < s.width) THEN "in_concept_change disagrees with the last check"
                      ELSE Post(c, t, e), st |-> t]
      [] e.op = "reset" -> [ok |-> Post(c, AInit, e), st |-> AInit]
      [] e.op = "ask" -> LET t == Detect(c.p, s, s.width) IN    \* a change check that reported nothing, not looked at otherwise
           [ok |-> IF t.width < s.width THEN "a significant cut of the window is not reported as a change" ELSE "", st |-> t]
      [] e.op = "silent" -> LET t == Add(c.p, s, e.x) IN [ok |-> "", st |-> t]   \* an addition not looked at
WFinish(c, s) == ""
WStart(c) == AInit
INSTANCE TraceCheck WITH Start <- WStart, Step <- WStep, Finish <- WFinish
=============================================================================
