----------------------------- MODULE ChainsTrace ------------------------------
EXTENDS Chains, TLC
VARIABLES tr, i, st
(* cfg: p.  fit / more: x, y, ws, classes (sum, -1: none), raised;  ask: x, pred, proba (<<>>: not asked), tries;  reset;
   orders: for many seeds, the order seen                                    *)
SetOf(q) == {q[k] : k \in 1..Len(q)}
CStart(c) == [on |-> FALSE, hs |-> {}]
Fits(p, h, e) == \A q \in 1..Len(e.x) :
    /\ e.pred = <<>> \/ \E y \in Answers(p, h, e.x[q], e.tries) : Unset(p, h.o, y) = e.pred[q]
    /\ e.proba = <<>> \/ Unset(p, h.o, Greedy(p, h, e.x[q], 1, TRUE)) = e.proba[q]
CStep(c, s, e) ==
    CASE e.op \in {"fit", "more"} ->
           LET from == IF e.op = "fit" \/ ~s.on THEN Fresh(c.p) ELSE s.hs IN
           IF e.raised # "" THEN [ok |-> "learning raised " \o e.raised, st |-> s]
           ELSE [ok |-> IF ~e.me THEN "learning does not return the learner" ELSE "", st |-> [on |-> TRUE, hs |-> {Teach(c.p, h, e) : h \in from}]]
      [] e.op = "ask" ->
           LET left == {h \in s.hs : Fits(c.p, h, e)} IN
           [ok |-> IF e.raised # "" THEN "asking raised " \o e.raised
                   ELSE IF left # {} THEN ""
                   ELSE IF {h \in s.hs : Fits(c.p, h, [e EXCEPT !.proba = <<>>])} # {} THEN "the probabilities are not those of the members taught so"
                   ELSE "the answer is not that of one member per output, taught and asked in one order", st |-> [s EXCEPT !.hs = left]]
      [] e.op = "noproba" -> [ok |-> IF e.raised \in SetOf(c.p.noproba) THEN "" ELSE "probabilities the base estimator cannot give do not raise", st |-> s]
      [] e.op = "reset" -> [ok |-> "", st |-> CStart(c)]
      [] e.op = "base" -> [ok |-> IF e.touched THEN "the base estimator given by the caller was taught" ELSE "", st |-> s]
      [] e.op = "kind" -> [ok |-> IF e.type = (IF c.p.typed THEN IF c.p.reg THEN "regressor" ELSE "classifier" ELSE "classifier") THEN "" ELSE "the learner does not take its base estimator's type", st |-> s]
      [] e.op = "orders" -> [ok |-> IF Cardinality(SetOf(e.seen)) = Cardinality(Orders(c.p)) /\ SetOf(e.seen) = Orders(c.p) THEN ""
                                    ELSE "random orders are not drawn from all orders", st |-> s]
CFinish(c, s) == ""
INSTANCE TraceCheck WITH Start <- CStart, Step <- CStep, Finish <- CFinish
=============================================================================
