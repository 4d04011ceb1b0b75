------------------------------- MODULE RuleSet --------------------------------
(***************************************************************************)
(* Very fast decision rules.  The state: the rules in order and the        *)
(* default rule, each                                                      *)
(*   [pred, n, obs, last, err]  conjunction of <<attribute, relation,      *)
(*   value>>, class weights, attribute statistics since it last expanded,  *)
(*   weight at its last attempt, errors told to its drift detector         *)
(* The detector is scripted: a change at every det-th error (det 0: none). *)
(* p: nom, grace, crit, conf, tie, poor, max, ordered, ask, nb, nbt, det,  *)
(*    minw; merits, bounds and naive Bayes are those of Hoeffding.tla.     *)
(* Where rounding could reverse a decision all outcomes are allowed.       *)
(***************************************************************************)
EXTENDS Hoeffding

Rule(pred, n) == [pred |-> pred, n |-> n, obs |-> <<>>, last |-> 0, err |-> 0]
Rules0 == [rules |-> <<>>, def |-> Rule(<<>>, Empty)]
Weight(r) == FSumF(r.n)
Holds(q, x) ==
    CASE q[2] = "<=" -> FLe(x[q[1]], q[3])
      [] q[2] = ">" -> FGt(x[q[1]], q[3])
      [] q[2] = "=" -> x[q[1]] = q[3]
      [] q[2] = "!=" -> x[q[1]] # q[3]
Covers(r, x) == \A j \in 1..Len(r.pred) : Holds(r.pred[j], x)
RuleLearn(p, r, x, y, w) == [r EXCEPT !.n = NLearn(@, y, w), !.obs = ObsLearn(p.nom, @, x, y, w)]

(* ---------------- which side of a split a rule keeps ---------------- *)
(* info_gain: the purest side met so far in this ranking; hellinger: the side where the classes differ more.
   m: [low: least entropy met ("none": nothing yet), side: the sides (1, 2) it may have been] *)
Tiny(a, b) == FLe(FAbs(FSub(a, b)), "1e-12")
Look(m, e, i) ==
    IF IsStrV(m.low) /\ m.low = "none" THEN [low |-> e, side |-> {i}]
    ELSE IF Tiny(e, m.low) /\ ~FEq(e, m.low) THEN [low |-> FMin(e, m.low), side |-> m.side \cup {i}]
    ELSE IF FEq(e, m.low) /\ ~FEq(e, 0) THEN [m EXCEPT !.side = @ \cup {i}]
    ELSE IF FLt(e, m.low) THEN [low |-> e, side |-> {i}] ELSE m
Far(ds, j) == LET neg == FAdd(ds[1][0], ds[2][0]) pos == FAdd(ds[1][1], ds[2][1]) IN
              FPow(FSub(FSqrt(FDiv(ds[j][1], pos)), FSqrt(FDiv(ds[j][0], neg))), 2)
Sided(crit, m, ds) ==
    IF ~EnoughBranches(ds) THEN m
    ELSE IF crit = "info_gain" THEN Look(Look(m, Entropy(ds[1]), 1), Entropy(ds[2]), 2)
    ELSE IF ~(\A j \in 1..2 : {0, 1} \subseteq DOMAIN ds[j]) THEN m
    ELSE LET a == Far(ds, 1) b == Far(ds, 2) IN
         [m EXCEPT !.side = IF Tiny(a, b) /\ ~FEq(a, b) THEN {1, 2} ELSE IF FGe(a, b) \/ FIsNaN(a) THEN {1} ELSE {2}]
(* every candidate of every attribute with the sides it would be taken on *)
RECURSIVE Sides(_, _, _, _)
Sides(crit, m, cs, j) ==
    IF j > Len(cs) THEN <<>>
    ELSE LET m2 == Sided(crit, m, cs[j].ds) IN << [c |-> cs[j], side |-> m2.side, after |-> m2] >> \o Sides(crit, m2, cs, j + 1)
RECURSIVE Ranked(_, _, _, _, _)
Ranked(p, n, obs, m, a) ==
    IF a > Len(obs) THEN <<>>
    ELSE IF IsStrV(obs[a]) THEN Ranked(p, n, obs, m, a + 1)
    ELSE LET cs == Force(Sides(p.crit, m, Cands([nom |-> p.nom, binary |-> TRUE, crit |-> p.crit], n, a, obs[a]), 1)) IN
         IF cs = <<>> THEN Ranked(p, n, obs, m, a + 1)
         ELSE LET j == First([i \in 1..Len(cs) |-> cs[i].c])
                  ix == SelectSeq([i \in 1..Len(cs) |-> i], LAMBDA i : i # j /\ MeritClose(cs[i].c.merit, cs[j].c.merit)
                                                                              /\ \A h \in 1..(i - 1) : ~Eq(cs[h].c.ds, cs[i].c.ds))
              IN << [c |-> cs[j].c, alt |-> << cs[j] >> \o [q \in 1..Len(ix) |-> cs[ix[q]]]] >> \o Ranked(p, n, obs, cs[Len(cs)].after, a + 1)
(* an attempt: whether it expands (both, if rounding decides), and on what *)
Op(c, s) == IF c.kind = "num" THEN (IF s = 1 THEN "<=" ELSE ">") ELSE (IF s = 1 THEN "=" ELSE "!=")
Ranking(p, r) ==
    LET sug == Force(ByMerit(Force(Ranked(p, r.n, r.obs, [low |-> "none", side |-> {1}], 1))))
        k == Len(sug)
        best == sug[k].c
        eps == Bound(p, r.n)
        gap == FSub(best.merit, sug[k - 1].c.merit)
        yes == IF k < 2 THEN k > 0 ELSE FGt(gap, eps) \/ FLt(eps, p.tie)
        unsure == k >= 2 /\ (MeritClose(gap, eps) \/ MeritClose(eps, p.tie)) /\ ~(FGt(gap, eps) /\ FLt(eps, p.tie) /\ ~MeritClose(eps, p.tie))
        tops == SelectSeq([j \in 1..k |-> j], LAMBDA j : j = k \/ MeritClose(sug[j].c.merit, best.merit))
        each(t) == LET F[q \in 0..Len(t)] == IF q = 0 THEN <<>> ELSE F[q - 1] \o (IF 1 \in t[q].side THEN << << t[q].c, 1 >> >> ELSE <<>>) \o (IF 2 \in t[q].side THEN << << t[q].c, 2 >> >> ELSE <<>>)
                   IN F[Len(t)]
        wins == LET F[q \in 0..Len(tops)] == IF q = 0 THEN <<>> ELSE F[q - 1] \o each(sug[tops[q]].alt) IN F[Len(tops)]
    IN [wins |-> IF yes \/ unsure THEN wins ELSE <<>>, stay |-> ~yes \/ unsure,
        poor |-> IF p.poor /\ k >= 2 THEN {sug[j].c.att : j \in {i \in 1..k : FGt(FSub(best.merit, sug[i].c.merit), eps)}} ELSE {}]

(* a condition joins the others; one on the same attribute in the same direction is tightened *)
Joined(pred, q) ==
    LET same == {j \in 1..Len(pred) : pred[j][1] = q[1] /\ pred[j][2] = q[2] /\ (q[2] \in {"<=", ">"} \/ pred[j][3] = q[3])} IN
    IF same = {} THEN Append(pred, q)
    ELSE LET j == CHOOSE i \in same : \A h \in same : i <= h IN
         [pred EXCEPT ![j][3] = IF q[2] = "<=" THEN FMin(@, q[3]) ELSE IF q[2] = ">" THEN FMax(@, q[3]) ELSE @]
Expanded(r, c, s) ==
    LET q == << c.att, Op(c, s), c.val >>
        again == q[2] \in {"=", "!="} /\ \E j \in 1..Len(r.pred) : r.pred[j] = q
    IN [r EXCEPT !.pred = Joined(@, q), !.n = IF again THEN @ ELSE c.ds[s], !.obs = <<>>]
Grow(p, r) ==
    IF Cardinality(DOMAIN r.n) < 2 THEN << [r EXCEPT !.last = Weight(r)] >>
    ELSE LET k == Ranking(p, r)
             out == [q \in 1..Len(k.wins) |-> Expanded(r, k.wins[q][1], k.wins[q][2])]
                    \o (IF k.stay THEN << [r EXCEPT !.obs = [a \in 1..Len(@) |-> IF a \in k.poor THEN "off" ELSE @[a]]] >> ELSE <<>>)
         IN Force([q \in 1..Len(out) |-> [out[q] EXCEPT !.last = Weight(out[q])]])
(* the default rule gives rise to a rule, and keeps the rest *)
Create(p, rs) ==
    IF Cardinality(DOMAIN rs.def.n) < 2 THEN << [rs EXCEPT !.def.last = Weight(rs.def)] >>
    ELSE LET k == Ranking(p, rs.def) IN
         Force([q \in 1..Len(k.wins) |-> LET c == k.wins[q][1] s == k.wins[q][2] IN
                   [rules |-> Append(rs.rules, Rule(<< << c.att, Op(c, s), c.val >> >>, c.ds[s])), def |-> Rule(<<>>, c.ds[3 - s])]]
               \o (IF k.stay THEN << [rs EXCEPT !.def.last = Weight(rs.def)] >> ELSE <<>>))

(* ---------------- a row ---------------- *)
Without(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
Due(p, r) == FGe(FSub(Weight(r), r.last), p.grace)
RECURSIVE Feed(_, _, _, _, _, _, _)
Feed(p, rs, k, x, y, w, fired) ==
    IF k > Len(rs) THEN << [rules |-> rs, fired |-> fired] >>
    ELSE IF ~Covers(rs[k], x) THEN Feed(p, rs, k + 1, x, y, w, fired)
    ELSE LET right == IF DOMAIN rs[k].n = {} THEN y = 0 ELSE ArgMax(rs[k].n) = y
             r == [rs[k] EXCEPT !.err = IF right \/ p.det = 0 THEN @ ELSE @ + 1]
         IN IF p.det > 0 /\ ~right /\ r.err % p.det = 0 /\ FGt(Weight(r), p.minw) THEN Feed(p, Without(rs, k), k, x, y, w, TRUE)
            ELSE LET l == RuleLearn(p, r, x, y, w)
                     gs == IF Due(p, l) THEN Grow(p, l) ELSE << l >>
                     F[q \in 0..Len(gs)] == IF q = 0 THEN <<>> ELSE F[q - 1] \o
                         (IF p.ordered THEN << [rules |-> [rs EXCEPT ![k] = gs[q]], fired |-> TRUE] >> ELSE Feed(p, [rs EXCEPT ![k] = gs[q]], k + 1, x, y, w, TRUE))
                 IN Force(F[Len(gs)])
RLearn(p, s, x, y, w) ==
    IF FEq(w, 0) THEN << s >>
    ELSE LET fs == Feed(p, s.rules, 1, x, y, w, FALSE)
             After(f) == IF f.fired THEN << [s EXCEPT !.rules = f.rules] >>
                         ELSE LET d == [rules |-> f.rules, def |-> RuleLearn(p, s.def, x, y, w)] IN
                              IF Len(d.rules) < p.max /\ Due(p, d.def) THEN Create(p, d) ELSE << d >>
             F[q \in 0..Len(fs)] == IF q = 0 THEN <<>> ELSE F[q - 1] \o After(fs[q])
         IN Force(F[Len(fs)])

(* ---------------- answers: the votes that may be given ---------------- *)
RuleVotes(p, r, x) == IF p.nb /\ FGe(Weight(r), p.nbt) THEN NB(p.nom, r.n, r.obs, x) ELSE r.n
Biggest(v) == v[ArgMax(v)]
Ask(p, s, x) ==
    LET hit == SelectSeq(s.rules, LAMBDA r : Covers(r, x))
        def == RuleVotes(p, s.def, x)
        vs == Force([j \in 1..Len(hit) |-> IF p.ask = "first_hit" THEN RuleVotes(p, hit[j], x) ELSE Norm(RuleVotes(p, hit[j], x))])
        some == {j \in 1..Len(vs) : DOMAIN vs[j] # {}}
    IN IF hit = <<>> THEN {def}
       ELSE CASE p.ask = "first_hit" -> {vs[1]}
              [] p.ask = "weighted_max" ->
                   IF some = {} THEN {def}
                   ELSE LET top == CHOOSE j \in some : \A i \in some : FLe(Biggest(vs[i]), Biggest(vs[j])) /\ (FEq(Biggest(vs[i]), Biggest(vs[j])) => i <= j)
                        IN {vs[j] : j \in {i \in some : i = top \/ (FClose(Biggest(vs[i]), Biggest(vs[top]), "1e-09") /\ ~(IsIntV(Biggest(vs[i])) /\ IsIntV(Biggest(vs[top]))))}}
              [] p.ask = "weighted_sum" ->
                   {[c \in UNION {DOMAIN vs[j] : j \in 1..Len(vs)} |-> FSum([j \in 1..Len(vs) |-> Get(vs[j], c)])]}
=============================================================================
