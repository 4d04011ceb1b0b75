----------------------------- MODULE HoeffdingMC ------------------------------
(* Exhaustive: every stream of T rows of two nominal attributes (2 and V values) and two classes. *)
EXTENDS Hoeffding, TLC, Json
CONSTANTS T, V, Grace, Crit, Conf, Tie, Binary, LeafP, Gen
VARIABLES s, ops
P == [nom |-> {1, 2}, grace |-> Grace, crit |-> Crit, conf |-> Conf, tie |-> Tie, binary |-> Binary, poor |-> FALSE, noprune |-> FALSE,
      leaf |-> LeafP, nbt |-> 0, stop |-> FALSE]
Init == s = Tree0 /\ ops = <<>>
Next == Len(ops) < T /\ \E a \in 0..1, b \in 0..(V - 1), y \in 0..1 : (\E q \in 1..Len(Learn(P, s, << a, b >>, y, 1)) : s' = Learn(P, s, << a, b >>, y, 1)[q]) /\ ops' = Append(ops, << a, b, y >>)
View == << s, Len(ops) >>
RECURSIVE Weight(_)
RECURSIVE WeightOf(_, _)
WeightOf(ch, j) == IF j > Len(ch) THEN 0 ELSE FAdd(Weight(ch[j]), WeightOf(ch, j + 1))
Weight(t) == IF t.leaf THEN FSumF(t.n) ELSE WeightOf(t.ch, 1)
(* no weight is counted twice, and a leaf root has it all (a split shares out only what the leaf itself has observed since it was made) *)
Conserved == FLe(Weight(s.root), Len(ops)) /\ (s.root.leaf => FEq(Weight(s.root), Len(ops)))
(* so are the rows of every class *)
RECURSIVE ClassW(_, _)
RECURSIVE ClassWOf(_, _, _)
ClassWOf(ch, c, j) == IF j > Len(ch) THEN 0 ELSE FAdd(ClassW(ch[j], c), ClassWOf(ch, c, j + 1))
ClassW(t, c) == IF t.leaf THEN Get(t.n, c) ELSE ClassWOf(t.ch, c, 1)
ByClass == \A c \in 0..1 : LET k == Cardinality({j \in 1..Len(ops) : ops[j][3] = c}) IN FLe(ClassW(s.root, c), k) /\ (s.root.leaf => FEq(ClassW(s.root, c), k))
(* a split needs a grace period and two classes; with a merit other than -inf it has at least two branches (at a tie even a test
   that separates nothing is chosen: the implementation's rule) *)
RECURSIVE Sound(_)
Sound(t) == t.leaf \/ (/\ Len(t.ch) >= 1 /\ FGe(FSumF(t.n), Grace) /\ ~Pure(t.n) /\ \A j \in 1..Len(t.ch) : Sound(t.ch[j]))
Splitting == Sound(s.root)
(* every possible row has an answer, and all answers are distributions *)
Answers == \A a \in 0..1, b \in 0..(V - 1) : \A v \in (IF s.none THEN {Empty} ELSE Votes(P, s.root, << a, b >>)) :
             \A c \in DOMAIN v : FGe(v[c], 0)
NeverOff == Off(s.root) = 0
Emit == (Gen /\ Len(ops) = T) => PrintT("@GEN " \o ToJson(ops))
=============================================================================
