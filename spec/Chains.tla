-------------------------------- MODULE Chains --------------------------------
(***************************************************************************)
(* One member per output, alone (multi-output learner) or in a chain where  *)
(* each member is also told the outputs before it.  The members here are    *)
(* scripted: a running checksum of everything they were taught determines   *)
(* what they answer, so that a lesson or question that differs shows.       *)
(* Numbers are integers: features in eighths, probabilities in eighths,     *)
(* regression outputs in quarters.                                          *)
(*   kind: "mol" | "cc" | "pcc" | "mcc" | "rc"                              *)
(*   takes: which arguments the member's methods take beside the rows       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Real64

RECURSIVE Sig(_, _)
Sig(F, i) == IF i > Len(F) THEN 0 ELSE (i + 1) * F[i] + Sig(F, i + 1)
New == 1
Lesson(s, F, y, w) == (3 * s + w * (7 * y + 3) * (Sig(F, 1) + 5)) % 997
Told(s, cl) == (5 * s + cl) % 997                       \* the announced classes (their sum), before the rows of a call
Score(s, F) == s + Sig(F, 1)
Q(s, F) == Score(s, F) % 9                              \* probability of 1, in eighths
Says(p, s, F) == IF p.kind = "rc" \/ p.reg THEN (Score(s, F) % 41) - 20
                 ELSE IF p.natural THEN IF Q(s, F) > 4 THEN 1 ELSE 0
                 ELSE (Score(s, F) \div 9) % 2
(* an output, seen as a feature *)
AsFeature(p, y) == IF p.kind = "rc" THEN 2 * y ELSE 8 * y

Chained(p) == p.kind # "mol"
Orders(p) == LET id == [k \in 1..p.L |-> k] IN
             IF p.order = "random" THEN {o \in [1..p.L -> 1..p.L] : \A a, b \in 1..p.L : a # b => o[a] # o[b]} ELSE {id}
(* h: one possible state - the order o and the members' checksums s (in chain order) *)
Before(p, o, y, k) == [a \in 1..(k - 1) |-> AsFeature(p, y[o[a]])]
RECURSIVE Rows(_, _, _, _, _, _)
Rows(p, o, s, k, e, j) ==
    IF j > Len(e.y) THEN s
    ELSE Rows(p, o, Force(Lesson(s, IF Chained(p) THEN e.x[j] \o Before(p, o, e.y[j], k) ELSE e.x[j], e.y[j][o[k]],
                                 IF p.kind = "mol" /\ p.takew /\ e.ws # <<>> THEN e.ws[j] ELSE 1)), k, e, j + 1)
Teach(p, h, e) == [h EXCEPT !.s = Force([k \in 1..p.L |->
                      Rows(p, h.o, IF p.kind = "mol" /\ p.takec /\ e.classes >= 0 THEN Told(h.s[k], e.classes) ELSE h.s[k], k, e, 1)])]
Fresh(p) == {[o |-> o, s |-> [k \in 1..p.L |-> New]] : o \in Orders(p)}

(* answers, in chain order *)
RECURSIVE Greedy(_, _, _, _, _)
Greedy(p, h, F, k, probs) ==
    IF k > p.L THEN <<>>
    ELSE LET a == IF probs THEN Q(h.s[k], F) ELSE Says(p, h.s[k], F)
         IN <<a>> \o Greedy(p, h, IF ~Chained(p) THEN F ELSE Append(F, IF probs THEN a ELSE AsFeature(p, a)), k + 1, probs)
(* the probability of the whole vector y (in chain order), in eighths to the power of L *)
RECURSIVE Joint(_, _, _, _, _)
Joint(p, h, F, y, k) ==
    IF k > p.L THEN 1
    ELSE (IF y[k] = 1 THEN Q(h.s[k], F) ELSE 8 - Q(h.s[k], F)) * Joint(p, h, Append(F, 8 * y[k]), y, k + 1)
Vectors(p) == [1..p.L -> 0..1]
Best(p, h, F) == {y \in Vectors(p) : \A z \in Vectors(p) : Joint(p, h, F, z, 1) <= Joint(p, h, F, y, 1)}
(* the vectors that may be answered; tries: how many vectors are sampled (enough: the best is bound to be among them) *)
Enough(p) == IF p.L <= 2 THEN 150 ELSE 300
Answers(p, h, F, tries) ==
    CASE p.kind = "pcc" -> Best(p, h, F)
      [] p.kind = "mcc" -> LET g == Greedy(p, h, F, 1, FALSE) IN
             IF tries = 0 THEN {g}
             ELSE IF tries >= Enough(p) THEN IF g \in Best(p, h, F) THEN {g} ELSE Best(p, h, F)
             ELSE {g} \cup {y \in Vectors(p) : Joint(p, h, F, y, 1) > Joint(p, h, F, g, 1)}
      [] OTHER -> {Greedy(p, h, F, 1, FALSE)}
(* from chain order to the order of the outputs *)
Unset(p, o, y) == [l \in 1..p.L |-> y[CHOOSE k \in 1..p.L : o[k] = l]]
=============================================================================
