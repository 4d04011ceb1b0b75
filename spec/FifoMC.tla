------------------------------- MODULE FifoMC -------------------------------
EXTENDS Fifo, TLC, Json
CONSTANTS Max, MaxAdd, Depth
VARIABLES q, nxt, out, ops          \* nxt: next fresh element, out: elements thrown out so far
Init == q = <<>> /\ nxt = 1 /\ out = <<>> /\ ops = <<>>
Fresh(n) == [k \in 1..n |-> nxt + k - 1]
Log(o, n) == ops' = Append(ops, [op |-> o, n |-> n])
Add(n) == /\ q' = AddKeeps(q, Max, Fresh(n)) /\ out' = out \o AddEvicts(q, Max, Fresh(n)) /\ nxt' = nxt + n /\ Log("add", n)
Get == q' = DropOldest(q) /\ out' = (IF q = <<>> THEN out ELSE Append(out, q[1])) /\ nxt' = nxt /\ Log("get", 0)
Clear == q' = <<>> /\ out' = out \o q /\ nxt' = nxt /\ Log("clear", 0)
Next == Len(ops) < Depth /\ ((\E n \in 1..MaxAdd : Add(n)) \/ Get \/ Clear)
(* nothing is lost, duplicated or reordered, and the bound holds *)
Order == out \o q = [k \in 1..(nxt - 1) |-> k]
Bound == Len(q) <= Max
Emit == Len(ops) = Depth => PrintT("@GEN " \o ToJson(ops))
=============================================================================
