---------------------------- MODULE PrequentialMC ----------------------------
(* Every interleaving of reading, testing and training that the            *)
(* specification admits, with history variables for the guarantees.        *)
EXTENDS Prequential, TLC
CONSTANTS C
VARIABLES s, preds, fits        \* per model: sequence of rows tested / trained, in order
vars == <<s, preds, fits>>
Init == s = PInit(C) /\ preds = [m \in Models(C) |-> <<>>] /\ fits = [m \in Models(C) |-> <<>>]
DoRead == \E b \in {C.batch, C.pre} : b > 0 /\ ReadWhy(C, s, b) = "" /\ s' = Read(C, s, b) /\ UNCHANGED <<preds, fits>>
DoTest == \E m \in Models(C) : /\ TestWhy(C, s, m, s.cur) = "" /\ s' = Test(C, s, m)
                               /\ preds' = [preds EXCEPT ![m] = @ \o s.cur] /\ UNCHANGED fits
DoTrain == \E m \in Models(C) : /\ TrainWhy(C, s, m, s.cur) = "" /\ s' = Train(C, s, m)
                                /\ fits' = [fits EXCEPT ![m] = @ \o s.cur] /\ UNCHANGED preds
Next == DoRead \/ DoTest \/ DoTrain
Iota(a, b) == [k \in 1..(IF b < a THEN 0 ELSE b - a + 1) |-> a + k - 1]
Pre == IF C.rows # -1 /\ C.pre > C.rows THEN C.rows ELSE C.pre
(* each model is tested on every row after pretraining once, in order, and *)
(* at that moment has been trained on exactly the rows before the batch    *)
TestThenTrain == \A m \in Models(C) :
    /\ preds[m] = Iota(Pre + 1, Pre + Len(preds[m]))
    /\ fits[m] = Iota(1, Len(fits[m]))
    /\ Len(fits[m]) <= Pre + Len(preds[m])
    /\ Pre + Len(preds[m]) - Len(fits[m]) <= IF s.mode \in {"idle", "pre"} THEN Pre ELSE C.batch
Complete == DoneWhy(C, s) = "" => \A m \in Models(C) : Len(fits[m]) = s.got
WithinBudget == s.got < Budget(C) + C.batch \/ s.got <= C.pre
NoDeadlock == DoneWhy(C, s) = "" \/ ENABLED Next
=============================================================================
