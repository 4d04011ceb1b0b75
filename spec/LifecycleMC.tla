----------------------------- MODULE LifecycleMC ------------------------------
(* An abstract implementation: instances are references into a heap of model *)
(* states; training rewrites the referenced state row by row, a copy         *)
(* allocates.  Checked: every instance always holds exactly the fold of its  *)
(* history (so instances are isolated and a reset forgets everything), and   *)
(* the merged history is the same for every way of cutting the rows.         *)
(* In generation mode the behaviours are schedules for the real learners.    *)
EXTENDS Lifecycle, TLC, Json
CONSTANTS Depth, Gen, N
Blocks == IF Gen THEN {<<1, 2>>, <<3, 4>>} ELSE {<<a, b>> \in (1..3) \X (1..3) : a <= b}
VARIABLES h, ref, heap, tab, ops
Rows(a, b) == [k \in 1..(b - a + 1) |-> a + k - 1]
RECURSIVE Flat(_)
Flat(x) == IF x = <<>> THEN <<>> ELSE Rows(x[1][1], x[1][2]) \o Flat(Tail(x))
Init == /\ h = Slots0(N) /\ ref = [k \in 1..N |-> k] /\ heap = [k \in 1..N |-> << >>]
        /\ tab = {} /\ ops = << >>
Log(o) == ops' = IF Gen THEN Append(ops, o) ELSE Append(ops, 0)
Fit(s, blk) == /\ h' = [h EXCEPT ![s] = Teach(TRUE, @, blk[1], blk[2])]
               /\ heap' = [heap EXCEPT ![ref[s]] = @ \o Rows(blk[1], blk[2])]
               /\ UNCHANGED <<ref, tab>> /\ Log([op |-> "fit", s |-> s, t |-> blk[1], conf |-> FALSE])
Ask(s) == /\ tab' = tab \cup {<<h[s], heap[ref[s]]>>} /\ UNCHANGED <<h, ref, heap>>
          /\ Log([op |-> "ask", s |-> s, t |-> 0, conf |-> \E e \in tab : e[1] = h[s]])
Forget(s, o) == /\ h' = [h EXCEPT ![s] = Hist0] /\ heap' = Append(heap, << >>) /\ ref' = [ref EXCEPT ![s] = Len(heap) + 1]
                /\ tab' = tab /\ Log([op |-> o, s |-> s, t |-> 0, conf |-> FALSE])
Clone(s, t) == /\ h' = [h EXCEPT ![t] = Hist0] /\ heap' = Append(heap, << >>) /\ ref' = [ref EXCEPT ![t] = Len(heap) + 1]
               /\ tab' = tab /\ Log([op |-> "clone", s |-> s, t |-> t, conf |-> FALSE])
Copy(s, t) == /\ h' = [h EXCEPT ![t] = h[s]] /\ heap' = Append(heap, heap[ref[s]]) /\ ref' = [ref EXCEPT ![t] = Len(heap) + 1]
              /\ tab' = tab /\ Log([op |-> "copy", s |-> s, t |-> t, conf |-> FALSE])
NoRepeat(o, s) == IF Gen /\ Len(ops) > 0 THEN ops[Len(ops)].op # o \/ ops[Len(ops)].s # s ELSE TRUE
Useful(s) == IF Gen THEN h[s] # Hist0 ELSE TRUE
Next == /\ Len(ops) < Depth
        /\ \E s \in 1..N :
             \/ \E blk \in Blocks : Fit(s, blk)
             \/ (NoRepeat("ask", s) = TRUE) /\ h[s] # Hist0 /\ Ask(s)
             \/ (Useful(s) = TRUE) /\ Forget(s, "reset")
             \/ \E t \in 1..N \ {s} : ((Useful(s) = TRUE) /\ Clone(s, t)) \/ ((Useful(s) = TRUE) /\ Copy(s, t))
Fold == \A s \in 1..N : heap[ref[s]] = Flat(h[s])
Isolated == \A s, t \in 1..N : s # t => ref[s] # ref[t]
Functional == \A x, y \in tab : x[1] = y[1] => x[2] = y[2]
Fine == \A s \in 1..N : \A k \in 1..(Len(h[s]) - 1) : h[s][k][2] + 1 # h[s][k + 1][1]
(* a behaviour worth playing ends by asking what another path has already answered *)
Emit == (Gen /\ Len(ops) = Depth /\ ops[Depth].op = "ask" /\ ops[Depth].conf /\ ops[1].s = 1) => PrintT("@GEN " \o ToJson(ops))
=============================================================================
