------------------------------- MODULE CutsMC --------------------------------
(* All ways of cutting the first N units of a stream into training calls, with *)
(* questions in between; the merged history never depends on the cuts.         *)
EXTENDS Lifecycle, TLC, Json
CONSTANTS N, Gen
VARIABLES h, at, ops
Init == h = Hist0 /\ at = 0 /\ ops = <<>>
Next == /\ at < N
        /\ \E n \in 1..(N - at) : \E ask \in BOOLEAN :
             /\ h' = Teach(TRUE, h, at + 1, at + n) /\ at' = at + n
             /\ ops' = Append(ops, [n |-> n, ask |-> ask])
OneRange == h = (IF at = 0 THEN Hist0 ELSE << <<1, at>> >>)
Emit == (Gen /\ at = N) => PrintT("@GEN " \o ToJson(ops))
=============================================================================
