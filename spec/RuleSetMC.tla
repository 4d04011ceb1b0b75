------------------------------- MODULE RuleSetMC -------------------------------
(* Exhaustive: every stream of T rows of two nominal attributes (2 and V values) and two classes. *)
EXTENDS RuleSet, TLC, Json
CONSTANTS T, V, Grace, Crit, Conf, Tie, Ordered, Max, Det, Minw, How, Gen
VARIABLES s, ops
P == [nom |-> {1, 2}, grace |-> Grace, crit |-> Crit, conf |-> Conf, tie |-> Tie, poor |-> FALSE, max |-> Max, ordered |-> Ordered,
      ask |-> How, nb |-> FALSE, nbt |-> 0, det |-> Det, minw |-> Minw]
Space == {<< a, b >> : a \in 0..1, b \in 0..(V - 1)}
Init == s = Rules0 /\ ops = <<>>
Next == Len(ops) < T /\ \E x \in Space, y \in 0..1 : (\E q \in 1..Len(RLearn(P, s, x, y, 1)) : s' = RLearn(P, s, x, y, 1)[q])
                                                    /\ ops' = Append(ops, << x[1], x[2], y >>)
View == << s, Len(ops) >>
All == Append(s.rules, s.def)
RECURSIVE Total(_)
Total(rs) == IF rs = <<>> THEN 0 ELSE FAdd(Weight(rs[1]), Total(Tail(rs)))
(* no row is counted twice by rules that are tried in order, and only expansions and drifts lose any *)
Conserved == (Ordered => FLe(Total(All), Len(ops))) /\ (s.rules = <<>> /\ Det = 0 => FEq(Total(All), Len(ops)))
(* there are never more rules than allowed; each has a condition, and the default rule none *)
Shaped == Len(s.rules) <= Max /\ (\A j \in 1..Len(s.rules) : s.rules[j].pred # <<>>) /\ s.def.pred = <<>>
(* no condition is repeated in a rule *)
NoRepeat == \A j \in 1..Len(s.rules) : \A a, b \in 1..Len(s.rules[j].pred) : a = b \/ s.rules[j].pred[a] # s.rules[j].pred[b]
(* no rule has more weight than rows arrived, none has negative weight, and none waits longer than a grace period after an attempt for the next one *)
Weights == \A j \in 1..Len(All) : /\ FLe(0, Weight(All[j])) /\ FLe(Weight(All[j]), Len(ops)) /\ \A c \in DOMAIN All[j].n : FGe(All[j].n[c], 0)
                                  /\ (j <= Len(s.rules) /\ ~FEq(All[j].last, 0) => FLt(FSub(Weight(All[j]), All[j].last), FAdd(Grace, 1)))
(* every row has an answer; rules that cover it answer before the default rule; the first one of an ordered set alone *)
Answers == \A x \in Space : LET hit == SelectSeq(s.rules, LAMBDA r : Covers(r, x)) vs == Ask(P, s, x) IN
             /\ vs # {}
             /\ \A v \in vs : \A c \in DOMAIN v : FGe(v[c], 0)
             /\ (hit = <<>> => vs = {s.def.n})
             /\ (How = "first_hit" /\ hit # <<>> => vs = {hit[1].n})
Emit == (Gen /\ Len(ops) = T) => PrintT("@GEN " \o ToJson(ops))
=============================================================================
