------------------------------ MODULE DelayedMC ------------------------------
(* All availability patterns of a short stream.                            *)
EXTENDS Delayed, TLC, FiniteSetsExt
CONSTANTS N, MaxDelay, Batch, Pre, Limit, NModels
VARIABLES c, s, fits, preds
Init == \E d \in [1..N -> 0..MaxDelay] :
        /\ c = [models |-> NModels, batch |-> Batch, pre |-> Pre, limit |-> Limit, rows |-> N,
                arr |-> [k \in 1..N |-> k], avail |-> [k \in 1..N |-> k + d[k]]]
        /\ s = DInit(c) /\ fits = [m \in 1..NModels |-> <<>>] /\ preds = [m \in 1..NModels |-> <<>>]
DoRead == \E b \in {Batch, Pre} : b > 0 /\ ReadWhy(c, s, b) = "" /\ s' = Read(c, s, b) /\ UNCHANGED <<fits, preds>>
DoTrain == \E m \in 1..NModels : LET t == Handing(c, s) IN
           /\ TrainWhy(c, s, m, t.due) = "" /\ s' = Train(c, s, m) /\ fits' = [fits EXCEPT ![m] = @ \o t.due] /\ UNCHANGED preds
DoTest == \E m \in 1..NModels : /\ TestWhy(c, s, m, s.cur) = "" /\ s' = Test(c, s, m)
           /\ preds' = [preds EXCEPT ![m] = @ \o s.cur] /\ UNCHANGED fits
Next == (DoRead \/ DoTrain \/ DoTest) /\ UNCHANGED c
Ran(q) == {q[k] : k \in 1..Len(q)}
(* a label is used only once available, at most once, after its row was tested *)
NoPeek == s.mode = "run" => \A m \in 1..NModels : \A r \in Ran(fits[m]) :
              r <= Pre \/ (s.cur # <<>> /\ c.avail[r] <= c.arr[s.cur[Len(s.cur)]])
Once == \A m \in 1..NModels : /\ Cardinality(Ran(fits[m])) = Len(fits[m])
                              /\ \A r \in Ran(fits[m]) : r <= Pre \/ r \in Ran(preds[m])
Everything == DoneWhy(c, s) = "" => \A m \in 1..NModels : Ran(fits[m]) = 1..s.got /\ Len(preds[m]) = s.got - Pre
NoDeadlock == DoneWhy(c, s) = "" \/ ENABLED Next
=============================================================================
