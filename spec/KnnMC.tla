------------------------------- MODULE KnnMC --------------------------------
EXTENDS Knn, TLC, Json
CONSTANTS K, W, Depth, MaxFit, Gen
C == [k |-> K, W |-> W, metric |-> "manhattan", kind |-> "cls", maxc |-> 1]
Pts == 0..3
VARIABLES s, hist, ops
Init == s = KnnInit /\ hist = <<>> /\ ops = <<>>
(* in generation mode only the shape of the history matters; the driver supplies the data *)
Samples(n) == IF Gen THEN {[j \in 1..n |-> <<<<0>>, 0>>]} ELSE [1..n -> {<<<<p>>, y>> : p \in Pts, y \in 0..1}]
FitN(n) == \E z \in Samples(n) :
    LET X == [j \in 1..n |-> z[j][1]] Y == [j \in 1..n |-> z[j][2]] IN
    /\ s' = Fit(C, s, X, Y, {}, 0 - 1) /\ hist' = hist \o [j \in 1..n |-> [x |-> X[j], y |-> Y[j]]]
    /\ ops' = Append(ops, [op |-> "fit", n |-> n])
DoReset == s' = Reset(s) /\ hist' = <<>> /\ ops' = Append(ops, [op |-> "reset", n |-> 0])
Query == Gen /\ s' = s /\ hist' = hist /\ ops' = Append(ops, [op |-> "query", n |-> 0])
Next == Len(ops) < Depth /\ ((\E n \in 1..MaxFit : FitN(n)) \/ DoReset \/ Query)
(* the memory is the newest part of the history *)
Newest == /\ Len(s.w) <= W
          /\ s.w = SubSeq(hist, Len(hist) - Len(s.w) + 1, Len(hist))
          /\ Len(s.w) = (IF Len(hist) > W THEN W ELSE Len(hist))
(* the symbolic treatment of ties is exact: the admitted votes are those of the admissible choices of k nearest samples *)
D(x, j) == Dist("manhattan", s.w[j].x, x)
Choices(x) == {S \in SUBSET (1..Len(s.w)) : Cardinality(S) = K /\ \A a \in S : \A b \in (1..Len(s.w)) \ S : FLe(D(x, a), D(x, b))}
Exact == (Len(s.w) >= K /\ ~Gen) => \A p \in Pts :
    LET x == <<p>>
        n == Near(C, s.w, x)
        votes == {[y \in 0..1 |-> Cnt(s.w, S, y)] : S \in Choices(x)}
    IN /\ \A a \in 0..K : VotesOK(s.w, C, n, <<FDiv(a, K), FDiv(K - a, K)>>) <=> [y \in 0..1 |-> IF y = 0 THEN a ELSE K - a] \in votes
       /\ \A y \in 0..1 : (\E v \in votes : v[y] > v[1 - y] \/ (v[y] = v[1 - y] /\ y = 0)) => LabelOK(s.w, C, n, y)
Emit == (Gen /\ Len(ops) = Depth) => PrintT("@GEN " \o ToJson(ops))
=============================================================================
