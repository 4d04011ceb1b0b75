------------------------------- MODULE Answers --------------------------------
(***************************************************************************)
(* What an answer may look like, for any learner, at any point of its life. *)
(* The state is what the learner can know: the set of labels it was told or *)
(* has seen.  Class labels are non-negative integers; column c+1 of a       *)
(* probability row belongs to class c.  A learner that knows nothing about  *)
(* a row answers 0 (all probabilities zero).                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Real64

MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
Labels0(told, C) == IF told THEN C ELSE {}
Learn(K, labels) == K \cup labels

(* a label is one of the known ones, or the default 0 *)
LabelOK(K, v) == \E c \in K \cup {0} : FEq(v, c)

RowTotal(q) == FSum(q)
RowOK(unit, odds, q) ==
    /\ \A k \in 1..Len(q) : (odds \/ FGe(q[k], "-1e-09")) /\ FIsFinite(q[k])
    /\ unit => (FClose(RowTotal(q), 1, "1e-06") \/ FEq(RowTotal(q), 0))
(* the predicted class has the largest probability (a class without a column has probability 0) *)
Prob(q, c) == IF c + 1 <= Len(q) THEN q[c + 1] ELSE 0
ArgmaxOK(q, v) == IsNumV(v) /\ FEq(v, FTrunc(v)) /\ \A k \in 1..Len(q) : FLe(q[k], FAdd(Prob(q, FTrunc(v)), "1e-09"))
ColumnsOK(K, q) == \A k \in 1..Len(q) : FGt(q[k], 0) => (k - 1) \in K \cup {0}
=============================================================================
