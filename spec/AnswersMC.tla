------------------------------ MODULE AnswersMC -------------------------------
(* The shape rules are consistent: a frequency vote over known labels always   *)
(* satisfies them, and they exclude a vote for a label nobody has seen.        *)
EXTENDS Answers, TLC
CONSTANTS L, N
VARIABLES votes, K
Init == K \in SUBSET (0..L) /\ votes = [c \in 0..L |-> 0]
Tot == LET F[k \in -1..L] == IF k = -1 THEN 0 ELSE F[k - 1] + votes[k] IN F[L]
Next == /\ Tot < N
        /\ \E c \in K : votes' = [votes EXCEPT ![c] = @ + 1]
        /\ UNCHANGED K
Row == [k \in 1..(L + 1) |-> IF Tot = 0 THEN 0 ELSE FDiv(votes[k - 1], Tot)]
Best == CHOOSE c \in 0..L : \A d \in 0..L : votes[d] <= votes[c] /\ (votes[d] = votes[c] => c <= d)
Sound == /\ RowOK(TRUE, FALSE, Row) /\ ColumnsOK(K, Row) /\ ArgmaxOK(Row, Best) /\ LabelOK(K, Best)
Sharp == \A c \in 0..L : (ArgmaxOK(Row, c) /\ Tot > 0) => c \in K
=============================================================================
