----------------------------- MODULE ExpertsTrace -----------------------------
EXTENDS Experts, TLC
VARIABLES tr, i, st
(* cfg: p (parameters) *)
XStart(c) == Ens0
RECURSIVE Rows(_, _, _, _, _, _)
Rows(p, s, codes, ys, ws, k) == IF k > Len(codes) THEN s ELSE Rows(p, Row(p, s, codes[k], ys[k], ws[k]), codes, ys, ws, k + 1)
(* the experts as a bag of (age, share of the weight): their order is not visible to a user *)
Count(s, x) == Cardinality({j \in 1..Len(s) : s[j] = x})
SameBag(a, b) == Len(a) = Len(b) /\ \A j \in 1..Len(a) : Count(a, a[j]) = Count(b, a[j])
Obs(p, s, e) ==
    CASE s.loose -> ""
      [] Len(e.ages) # Len(s.e) -> "the ensemble has another number of experts"
      [] ~SameBag(e.ages, [j \in 1..Len(s.e) |-> s.e[j].seen]) -> "other experts were kept or made"
      [] e.shares # <<>> /\ \E j \in 1..Len(e.ages) : \A k \in 1..Len(s.e) : ~(s.e[k].seen = e.ages[j] /\ FClose(Shares(s.e)[k], e.shares[j], "1e-09"))
            -> "an expert has another weight"
      [] \E k \in 1..Len(e.codes) : ~NearTie(Votes(p, s.e, e.codes[k])) /\ e.pred[k] # Predict(p, s.e, e.codes[k])
            -> "the prediction is not the weighted majority of the experts"
      [] OTHER -> ""
XStep(c, s, e) ==
    CASE e.op = "fit" -> LET t == Rows(c.p, s, e.codes, e.ys, e.ws, 1) IN [ok |-> IF e.raised # "" THEN "training raised " \o e.raised ELSE "", st |-> t]
      [] e.op = "ask" -> [ok |-> Obs(c.p, s, e), st |-> s]
      [] e.op = "reset" -> [ok |-> "", st |-> Ens0]
XFinish(c, s) == ""
INSTANCE TraceCheck WITH Start <- XStart, Step <- XStep, Finish <- XFinish
=============================================================================
