--------------------------- MODULE SeededStreamMC ---------------------------
EXTENDS SeededStream, TLC, Json
CONSTANTS Insts, BatchSizes, Depth
VARIABLES s, seen, ops
Init == s = GInit(Insts) /\ seen = [j \in 1..Insts |-> <<>>] /\ ops = <<>>
Op(o) == ops' = Append(ops, o)
DoNext(j, b) == /\ s' = GNext(s, j, b)
                /\ seen' = [seen EXCEPT ![j] = @ \o GBatch(s', j)]
                /\ Op([op |-> "next", j |-> j, b |-> b])
DoRestart(j) == /\ s' = GRestart(s, j) /\ seen' = [seen EXCEPT ![j] = <<>>]
                /\ Op([op |-> "restart", j |-> j, b |-> 0])
DoForeign == UNCHANGED <<s, seen>> /\ Op([op |-> "foreign", j |-> 1, b |-> 0])
Next == Len(ops) < Depth /\
        (\/ \E j \in 1..Insts : (\E b \in BatchSizes : DoNext(j, b)) \/ DoRestart(j)
         \/ DoForeign)
(* every instance has delivered a prefix of the common sequence, so any two agree *)
Prefix == \A j \in 1..Insts : seen[j] = [k \in 1..Len(seen[j]) |-> k] /\ s.pos[j] = Len(seen[j])
Agree == \A j, k \in 1..Insts : \A n \in 1..Len(seen[j]) : n <= Len(seen[k]) => seen[j][n] = seen[k][n]
Emit == Len(ops) = Depth => PrintT("@GEN " \o ToJson(ops))
=============================================================================
