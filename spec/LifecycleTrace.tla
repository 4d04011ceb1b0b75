---------------------------- MODULE LifecycleTrace ----------------------------
EXTENDS Lifecycle, TLC
VARIABLES tr, i, st
(* cfg: n slots, rows (row-by-row learner), tol *)
LStart(c) == [h |-> Slots0(c.n), tab |-> {}, par |-> c.par]
Entries(e, h) == {[h |-> h, row |-> e.rows[k], p |-> e.p[k], q |-> e.q[k]] : k \in 1..Len(e.rows)}
AskOK(c, s, e) ==
    IF Len(e.p) # Len(e.rows) \/ Len(e.q) # Len(e.rows) THEN "not one answer per row"
    ELSE IF \E x \in Entries(e, s.h[e.s]) : \E y \in Known(s.tab, s.h[e.s], x.row) : ~AgreeV(c.tol, x, y)
    THEN "the answer depends on more than the model was taught since it was made or reset (" \o e.via \o ")" ELSE ""
LStep(c, s, e) ==
    CASE e.op = "fit" -> [ok |-> IF e.raised # "" THEN "training raised " \o e.raised ELSE IF ~e.same THEN "training altered its input" ELSE "",
                          st |-> [s EXCEPT !.h[e.s] = Teach(c.rows, s.h[e.s], e.a, e.b)]]
      [] e.op = "ask" -> [ok |-> AskOK(c, s, e),
                          st |-> [s EXCEPT !.tab = @ \cup {x \in Entries(e, s.h[e.s]) : Known(s.tab, s.h[e.s], x.row) = {}}]]
      [] e.op \in {"new", "reset"} -> [ok |-> "", st |-> [s EXCEPT !.h[e.s] = Hist0]]
      [] e.op = "clone" -> [ok |-> "", st |-> [s EXCEPT !.h[e.t] = Hist0]]
      [] e.op \in {"copy", "pickle"} -> [ok |-> "", st |-> [s EXCEPT !.h[e.t] = s.h[e.s]]]
      [] e.op = "params" -> [ok |-> IF ~e.base THEN "the base estimator that was handed over has been altered"
                                     ELSE IF e.par = s.par THEN "" ELSE "training, asking or resetting changed a constructor parameter", st |-> s]
      [] e.op = "noise" -> [ok |-> "", st |-> s]
LFinish(c, s) == ""
INSTANCE TraceCheck WITH Start <- LStart, Step <- LStep, Finish <- LFinish
=============================================================================
