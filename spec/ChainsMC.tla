------------------------------- MODULE ChainsMC --------------------------------
(* Every short history of one-row lessons over one binary feature, for every order of L outputs.                     *)
EXTENDS Chains
CONSTANTS Kind, L, T, Order
VARIABLES hs, n, last
P == [kind |-> Kind, L |-> L, order |-> Order, natural |-> TRUE, reg |-> FALSE, takew |-> TRUE, takec |-> FALSE]
Asked == {<<0>>, <<8>>}
Init == hs = Fresh(P) /\ n = 0 /\ last = <<>>
Next == /\ n < T
        /\ \E x \in 0..1 : \E y \in [1..L -> 0..1] : \E w \in {<<>>, <<2>>} :
           /\ hs' = {Teach(P, h, [x |-> <<<<8 * x>>>>, y |-> <<y>>, ws |-> w, classes |-> -1]) : h \in hs}
           /\ last' = <<x, y, w>>
        /\ n' = n + 1
RECURSIVE Sum(_, _, _)
Sum(h, F, S) == IF S = {} THEN 0 ELSE LET y == CHOOSE z \in S : TRUE IN Joint(P, h, F, y, 1) + Sum(h, F, S \ {y})
RECURSIVE Pow(_)
Pow(k) == IF k = 0 THEN 1 ELSE 8 * Pow(k - 1)
(* the joint probabilities of a chain add up to one *)
Distribution == \A h \in hs : \A F \in Asked : Sum(h, F, Vectors(P)) = Pow(L)
(* the best is at least as likely as what the chain says by itself, and there always is one *)
BestOK == \A h \in hs : \A F \in Asked : Best(P, h, F) # {} /\ \A y \in Best(P, h, F) : Joint(P, h, F, y, 1) >= Joint(P, h, F, Greedy(P, h, F, 1, FALSE), 1) /\ Joint(P, h, F, y, 1) > 0
(* more tries never allow worse answers; none: the chain's own *)
TriesOK == \A h \in hs : \A F \in Asked :
    LET Q8 == [P EXCEPT !.kind = "mcc"] IN
    /\ Answers(Q8, h, F, 0) = {Greedy(P, h, F, 1, FALSE)}
    /\ Answers(Q8, h, F, Enough(P)) \subseteq Answers(Q8, h, F, 1)
(* each order is possible, and no other; the outputs come back in their own order *)
OrdersOK == Cardinality({h.o : h \in hs}) = Cardinality(Orders(P))
            /\ \A h \in hs : Unset(P, h.o, [k \in 1..L |-> h.o[k]]) = [l \in 1..L |-> l]
(* without a chain, an output's member does not depend on the other outputs *)
RowsOnly == Kind = "mol" => \A h \in hs : \A a, b \in 1..L : n = 1 /\ last[2][a] = last[2][b] => h.s[a] = h.s[b]
(* the first member of a chain knows the features only *)
FirstOK == n = 1 => \A h \in hs : h.s[1] = Lesson(New, <<8 * last[1]>>, last[2][h.o[1]], IF Kind = "mol" /\ last[3] # <<>> THEN 2 ELSE 1)
=============================================================================
