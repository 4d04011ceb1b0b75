------------------------------ MODULE HoldoutMC ------------------------------
EXTENDS Holdout, TLC
CONSTANTS C
VARIABLES s, fits, tests
Init == s = HInit(C) /\ fits = [m \in Models(C) |-> <<>>] /\ tests = [m \in Models(C) |-> {}]
DoRead == \E b \in {C.batch, C.test} : ReadWhy(C, s, b) = "" /\ s' = Read(C, s, b) /\ UNCHANGED <<fits, tests>>
DoTest == \E m \in Models(C) : /\ TestWhy(C, s, m, s.test) = "" /\ s' = Test(C, s, m)
                               /\ tests' = [tests EXCEPT ![m] = @ \union {s.test[k] : k \in 1..Len(s.test)}] /\ UNCHANGED fits
DoTrain == \E m \in Models(C) : /\ TrainWhy(C, s, m, s.cur) = "" /\ s' = Train(C, s, m)
                                /\ fits' = [fits EXCEPT ![m] = @ \o s.cur] /\ UNCHANGED tests
Next == DoRead \/ DoTest \/ DoTrain
(* no model is ever trained on a row it is tested on, nor twice on a row *)
Disjoint == \A m \in Models(C) : /\ \A k \in 1..Len(fits[m]) : fits[m][k] \notin tests[m]
                                 /\ \A k, l \in 1..Len(fits[m]) : k < l => fits[m][k] < fits[m][l]
Complete == DoneWhy(C, s) = "" => \A m \in Models(C) : Len(fits[m]) + Cardinality(tests[m]) = s.got \/ tests[m] = {}
NoDeadlock == DoneWhy(C, s) = "" \/ ENABLED Next
=============================================================================
