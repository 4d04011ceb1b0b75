------------------------------ MODULE ExpertsMC -------------------------------
(* Exhaustive: all streams of coded rows and labels up to length T.            *)
EXTENDS Experts, TLC, Json
CONSTANTS Kind, N, Period, T, K, Gen
VARIABLES s, ops
P == [kind |-> Kind, n |-> N, period |-> Period, beta |-> "0.5", theta |-> "0.2", gamma |-> "0.1", pruning |-> "weakest", k |-> K, slow |-> 2]
Init == s = Ens0 /\ ops = <<>>
Next == s.t < T /\ \E code \in 0..(K - 1) : \E y \in 0..(K - 1) : s' = Row(P, s, code, y, 1) /\ ops' = Append(ops, <<code, y>>)
View == s
Bounded == Len(s.e) \in 1..N
(* weights are positive and, for DWM at the end of a period, the largest is 1 *)
Positive == \A j \in 1..Len(s.e) : FGt(s.e[j].w, 0)
Scaled == (Kind = "dwm" /\ s.t > 0 /\ s.t % Period = 0) => /\ \E j \in 1..Len(s.e) : FEq(s.e[j].w, 1)
                                              /\ \A j \in 1..Len(s.e) : FLe(s.e[j].w, 1) /\ FGe(s.e[j].w, P.theta)
Shared == (Kind = "add" /\ s.t > 0) => FClose(Total(s.e), 1, "1e-09")
(* an expert is never older than the stream *)
Ages == \A j \in 1..Len(s.e) : s.e[j].seen \in 0..s.t
Emit == (Gen /\ s.t = T) => PrintT("@GEN " \o ToJson(ops))
=============================================================================
