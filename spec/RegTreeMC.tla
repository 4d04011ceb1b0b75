------------------------------ MODULE RegTreeMC -------------------------------
(* Every stream of T rows (each of weight W) of a nominal or numeric attribute with V values, a second one with two, and targets 0, 1 or 4. *)
EXTENDS RegTree, TLC
CONSTANTS T, V, W, Grace, Conf, Tie, Nom, Binary, LeafP, Ys, Kind, K
VARIABLES s, k, tot
P == [nom |-> Nom, grace |-> Grace, conf |-> Conf, tie |-> Tie, binary |-> Binary, poor |-> FALSE, noprune |-> FALSE, leaf |-> LeafP,
      lr |-> "0.02", decay |-> "0.001", const |-> TRUE, kind |-> Kind, k |-> K, w0 |-> [j \in 1..K |-> << "0.5", "-0.25", FDiv(3, j + 3) >>],
      s0 |-> [j \in 1..K |-> [h \in 1..(K + 1) |-> FDiv(h - 2, j + 4)]]]
Tg(y) == IF K = 1 THEN << y >> ELSE << y, 3 - y >>
Init == s = Tree0(K) /\ k = 0 /\ tot = Zero(K)
Next == k < T /\ k' = k + 1 /\ \E a \in 0..(V - 1), b \in 0..1, y \in Ys :
            (\E q \in 1..Len(Learn(P, s, << a, b >>, Tg(y), W)) : s' = Learn(P, s, << a, b >>, Tg(y), W)[q]) /\ tot' = Add(tot, Tg(y), W)
RECURSIVE SumN(_, _)
SumN(ls, j) == IF j = 0 THEN Zero(K) ELSE Plus(SumN(ls, j - 1), ls[j].n)
Alike(n, m) == FClose(n[1], m[1], "1e-09") /\ \A h \in 2..3, j \in 1..K : FClose(n[h][j], m[h][j], "1e-09")
RECURSIVE HasMulti(_)
HasMulti(t) == IF t.leaf THEN FALSE ELSE t.kind = "multi" \/ \E j \in 1..Len(t.ch) : HasMulti(t.ch[j])
(* a split shares out everything the leaf has seen; one per value what was observed since the leaf was made *)
Conserved == LET n == SumN(LeafSeq(s.root), Len(LeafSeq(s.root))) IN
             IF HasMulti(s.root) THEN FLe(n[1], tot[1]) ELSE Alike(n, tot)
Whole == s.none \/ Alike(s.g.n, tot)
(* every branch has had at least five rows' weight, and tells something *)
RECURSIVE Sound(_)
Sound(t) == t.leaf \/ (/\ FGe(t.n[1], Grace) /\ FGt(SD(P, t.n), 0) /\ \A j \in 1..Len(t.ch) : Sound(t.ch[j]))
Splitting == Sound(s.root)
Filled == s.none \/ s.root.leaf \/ \A j \in 1..Len(LeafSeq(s.root)) : FGe(LeafSeq(s.root)[j].n[1], IF HasMulti(s.root) THEN W ELSE 5)
(* means lie between the targets *)
Between == LeafP = "mean" => \A a \in 0..V, b \in 0..1 : LET v == Value(P, s.g, s.root, << a, b >>)[1][1] IN FGe(v, "-1e-09") /\ FLe(v, 4)
(* the weights of a perceptron always sum to one in size; errors are not negative *)
RECURSIVE Leaves(_)
Leaves(t) == IF t.leaf THEN {t} ELSE UNION {Leaves(t.ch[j]) : j \in 1..Len(t.ch)}
Normed == \A l \in Leaves(s.root) : (\A j \in 1..Len(l.pw) : FClose(FSum([a \in 1..3 |-> FAbs(l.pw[j][a])]), 1, "1e-09") \/ l.pw = P.w0)
                                     /\ \A e \in 1..3, j \in 1..K : FGe(l.err[e][j], 0)
Some == \A a \in 0..V, b \in 0..1, j \in 1..K : ~s.none => Len(Value(P, s.g, s.root, << a, b >>)[j]) >= 1
=============================================================================
