----------------------------- MODULE MetricsMC -----------------------------
(* All short result histories: laws relating the metrics, and generator.   *)
EXTENDS Metrics, TLC, Json
CONSTANTS Classes, Win, Depth
VARIABLES s, ops
Init == s = CInit(2) /\ ops = <<>>
Put(t, p) == /\ s' = CAdd(s, Win, t, p, 1)
             /\ ops' = Append(ops, [op |-> "add", t |-> t, p |-> p])
Reset == s' = CInit(2) /\ ops' = Append(ops, [op |-> "reset", t |-> 0, p |-> 0])
Next == Len(ops) < Depth /\ ((\E t, p \in Classes : Put(t, p)) \/ (Len(ops) = 2 /\ Reset))
V == CView(s, Win)
Unit(x) == FLe(0, x) /\ FLe(x, "1.000000000001")
Bounds == /\ Unit(Accuracy(V)) /\ Unit(Precision(V, s.K)) /\ Unit(Recall(V, s.K)) /\ Unit(F1(V, s.K)) /\ Unit(GMean(V, s.K))
          /\ FLe(Kappa(V, s.K), 1) /\ FLe(KappaM(V), 1) /\ FLe(KappaT(V), 1)
Perfect == (V # <<>> /\ \A k \in 1..Len(V) : V[k].t = V[k].p) =>
              FClose(Accuracy(V), 1, "1e-12") /\ (FClose(Kappa(V, s.K), 1, "1e-9") \/ FEq(Kappa(V, s.K), 0))
Marginals == LET ks == SeqOf(s.K) IN
             /\ FClose(FSum([k \in 1..Len(ks) |-> Row(V, ks[k])]), Weight(V), "1e-12")
             /\ FClose(FSum([k \in 1..Len(ks) |-> Col(V, ks[k])]), Weight(V), "1e-12")
WindowLen == Win > 0 => Len(V) <= Win
Emit == Len(ops) = Depth => PrintT("@GEN " \o ToJson(ops))
=============================================================================
