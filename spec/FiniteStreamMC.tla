--------------------------- MODULE FiniteStreamMC ---------------------------
(* Exhaustive exploration of FiniteStream, and generator of operation       *)
(* sequences replayed against the implementation.                           *)
EXTENDS FiniteStream, TLC, Json
CONSTANTS N, BatchSizes, Depth
VARIABLES s, delivered, ops

vars == <<s, delivered, ops>>
Init == s = SInit(N) /\ delivered = <<>> /\ ops = <<>>

DoNext(b) == /\ s' = SNext(s, b)
             /\ delivered' = delivered \o BatchRows(s')
             /\ ops' = Append(ops, [op |-> "next", b |-> b])
DoRestart == /\ s' = SRestart(s) /\ delivered' = <<>>
             /\ ops' = Append(ops, [op |-> "restart", b |-> 0])
DoPeek    == /\ UNCHANGED <<s, delivered>>
             /\ ops' = Append(ops, [op |-> "peek", b |-> 0])
Next == Len(ops) < Depth /\ ((\E b \in BatchSizes : DoNext(b)) \/ DoRestart \/ DoPeek)

(* exactly once, in order, nothing invented *)
ExactlyOnceInOrder == delivered = [k \in 1..Len(delivered) |-> k]
CountsAgree == /\ Remaining(s) = N - Len(delivered)
               /\ Remaining(s) >= 0
               /\ HasMore(s) <=> Len(delivered) < N
LastBatch == ~s.fresh => \E k \in 0..Len(delivered) : BatchRows(s) = SubSeq(delivered, k + 1, Len(delivered))
Emit == Len(ops) = Depth => PrintT("@GEN " \o ToJson(ops))
=============================================================================
