------------------------------- MODULE Experts --------------------------------
(***************************************************************************)
(* Dynamic weighted majority and additive expert ensembles.  An expert is  *)
(* [seen |-> weight of the rows it was trained with, w |-> its weight]; what it predicts is *)
(* a known function of seen (a probe, harness/stubs.py).  Weights are      *)
(* doubles.  Code of a row: a non-negative integer.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Real64

Label(p, seen, code) == (code + seen \div p.slow) % p.k
Expert(w) == [seen |-> 0, w |-> w]
Ens0 == [e |-> << Expert(1) >>, t |-> 0, loose |-> FALSE]

Votes(p, e, code) == [c \in 0..(p.k - 1) |-> FSum([j \in 1..Len(e) |-> IF Label(p, e[j].seen, code) = c THEN e[j].w ELSE 0])]
Best(v) == CHOOSE c \in DOMAIN v : \A d \in DOMAIN v : FLe(v[d], v[c]) /\ (FEq(v[d], v[c]) => c <= d)
(* two classes whose totals cannot be told apart up to rounding *)
NearTie(v) == LET b == Best(v) IN \E c \in DOMAIN v : c # b /\ ~FEq(v[c], v[b]) /\ FClose(v[c], v[b], "1e-11")
Predict(p, e, code) == Best(Votes(p, e, code))
Total(e) == FSum([j \in 1..Len(e) |-> e[j].w])
Train(e, sw) == [j \in 1..Len(e) |-> [e[j] EXCEPT !.seen = @ + sw]]
Without(e, j) == SubSeq(e, 1, j - 1) \o SubSeq(e, j + 1, Len(e))

(* ---------------- dynamic weighted majority ---------------- *)
(* every period-th row: experts that are wrong lose weight (factor beta), weights are scaled so that the    *)
(* largest is 1, experts below theta leave; if the ensemble (weighted majority after the penalties) was     *)
(* wrong a new expert joins, taking the place of the first one of least weight when there are n already     *)
DwmRow(p, s, code, y, sw) ==
    LET t == s.t + 1
        due == t % p.period = 0
        pen == [j \in 1..Len(s.e) |-> IF due /\ Label(p, s.e[j].seen, code) # y THEN [s.e[j] EXCEPT !.w = FMul(@, p.beta)] ELSE s.e[j]]
        wrong == Predict(p, pen, code) # y
        mx == LET F[j \in 0..Len(pen)] == IF j = 0 THEN 0 ELSE FMax(F[j - 1], pen[j].w) IN F[Len(pen)]
        scaled == [j \in 1..Len(pen) |-> [pen[j] EXCEPT !.w = FMul(@, FDiv(1, mx))]]
        kept == SelectSeq(scaled, LAMBDA x : FGe(x.w, p.theta))
        weak == CHOOSE j \in 1..Len(kept) : \A i \in 1..Len(kept) : FLe(kept[j].w, kept[i].w) /\ (FEq(kept[i].w, kept[j].w) => j <= i)
        room == IF Len(kept) = p.n THEN Without(kept, weak) ELSE kept
        after == IF ~due THEN pen ELSE IF wrong THEN Append(room, Expert(1)) ELSE kept
    IN [e |-> Train(after, sw), t |-> t, loose |-> s.loose]

(* ---------------- additive experts ---------------- *)
(* every row: the ensemble votes, experts that are wrong lose weight (factor beta); if the ensemble was     *)
(* wrong an expert of weight gamma * total joins; if there are more than n then, the one of least weight    *)
(* (weakest) or the oldest one leaves.  Only the proportions of the weights matter.                         *)
LightestFirst(e) == LET o == FArgSort([j \in 1..Len(e) |-> e[j].w]) IN [j \in 1..Len(e) |-> e[o[j]]]
Shares(e) == LET tot == Total(e) IN [j \in 1..Len(e) |-> FDiv(e[j].w, tot)]
NearWeights(e) == \E i, j \in 1..Len(e) : i < j /\ FClose(e[i].w, e[j].w, "1e-11")
AddRow(p, s, code, y, sw) ==
    LET v == Votes(p, s.e, code)
        wrong == Best(v) # y
        pen == [j \in 1..Len(s.e) |-> IF Label(p, s.e[j].seen, code) # y THEN [s.e[j] EXCEPT !.w = FMul(@, p.beta)] ELSE s.e[j]]
        more == IF wrong THEN Append(pen, Expert(FMul(p.gamma, Total(pen)))) ELSE pen
        ord == IF p.pruning = "weakest" THEN LightestFirst(more) ELSE more
        cut == IF Len(ord) > p.n THEN Tail(ord) ELSE ord
        tot == Total(cut)
    IN [e |-> Train([j \in 1..Len(cut) |-> [cut[j] EXCEPT !.w = FDiv(@, tot)]], sw), t |-> s.t + 1,
        loose |-> s.loose \/ NearTie(v) \/ (p.pruning = "weakest" /\ Len(more) > p.n /\ NearWeights(SubSeq(ord, 1, 2)))]

Row(p, s, code, y, sw) == IF p.kind = "dwm" THEN DwmRow(p, s, code, y, sw) ELSE AddRow(p, s, code, y, sw)
=============================================================================
