--------------------------- MODULE DriftStreamMC ---------------------------
EXTENDS DriftStream
CONSTANTS Depth
VARIABLES s, out
Init == s = DInit /\ out = <<>>
Next == /\ Len(out) < Depth
        /\ \/ s' = TakeA(s) /\ out' = Append(out, <<"A", s'.a>>)
           \/ s' = TakeB(s) /\ out' = Append(out, <<"B", s'.b>>)
           \/ s' = DInit /\ out' = <<>>
Pick(x) == SelectSeq(out, LAMBDA e : e[1] = x)
(* no loss, duplication or reordering of either source *)
Merge == /\ Pick("A") = [k \in 1..s.a |-> <<"A", k>>]
         /\ Pick("B") = [k \in 1..s.b |-> <<"B", k>>]
         /\ s.n = s.a + s.b /\ s.n = Len(out)
=============================================================================
