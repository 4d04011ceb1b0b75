------------------------------ MODULE Hoeffding -------------------------------
(***************************************************************************)
(* A Hoeffding tree: the tree that a stream of weighted rows gives.        *)
(*   leaf  [leaf |-> TRUE, n, obs, last, mc, nblo, nbhi, on]               *)
(*   split [leaf |-> FALSE, att, kind, val, ch, n]; kind "num" (<= val, >  *)
(*         val), "eq" (= val, # val) or "multi" (val: the values in branch *)
(*         order)                                                          *)
(* The state also says whether growth is still allowed.  Where a decision  *)
(* is so close that rounding could reverse it, all outcomes are allowed.   *)
(* p: nom (set of nominal attributes), grace, crit, conf, tie, binary,     *)
(*    poor, noprune, leaf, nbt, stop                                       *)
(***************************************************************************)
EXTENDS ClassStats

Leaf(n) == [leaf |-> TRUE, n |-> n, obs |-> <<>>, last |-> FSumF(n), mc |-> 0, nblo |-> 0, nbhi |-> 0, on |-> TRUE]
Tree0 == [root |-> Leaf(Empty), none |-> TRUE, grow |-> TRUE]

(* ---------------- merits ---------------- *)
Entropy(d) ==
    LET pos == Asc({c \in DOMAIN d : FGt(d[c], 0)})
        sum == FSum([j \in 1..Len(pos) |-> d[pos[j]]])
        e == FSum([j \in 1..Len(pos) |-> FNeg(FMul(d[pos[j]], FLog2(d[pos[j]])))])
    IN IF FGt(sum, 0) THEN FDiv(FAdd(e, FMul(sum, FLog2(sum))), sum) ELSE 0
Sums(ds) == Force([j \in 1..Len(ds) |-> FSumF(ds[j])])
EnoughBranches(ds) == LET s == Sums(ds) t == FSum(s) IN FGt(t, 0) /\ Cardinality({j \in 1..Len(ds) : FGt(FDiv(s[j], t), "0.01")}) >= 2
Gini(d) == LET t == FSumF(d) o == Asc(DOMAIN d) IN
           IF FEq(t, 0) THEN 1 ELSE FSub(1, FSum([j \in 1..Len(o) |-> FMul(FDiv(d[o[j]], t), FDiv(d[o[j]], t))]))
Hell(ds) ==
    IF \A j \in 1..2 : {0, 1} \subseteq DOMAIN ds[j]
    THEN LET neg == FAdd(ds[1][0], ds[2][0]) pos == FAdd(ds[1][1], ds[2][1])
             D(j) == FPow(FSub(FSqrt(FDiv(ds[j][0], neg)), FSqrt(FDiv(ds[j][1], pos))), 2)
         IN FSqrt(FAdd(D(1), D(2)))
    ELSE 0
Merit(crit, pre, ds) ==
    LET s == Sums(ds) t == FSum(s) IN
    CASE crit = "info_gain" -> IF ~EnoughBranches(ds) THEN "-inf"
                               ELSE FSub(Entropy(pre), FDiv(FSum([j \in 1..Len(ds) |-> FMul(s[j], Entropy(ds[j]))]), t))
      [] crit = "gini" -> FSub(1, FSum([j \in 1..Len(ds) |-> FMul(FDiv(s[j], t), Gini(ds[j]))]))
      [] crit = "hellinger" -> IF ~EnoughBranches(ds) THEN "-inf" ELSE Hell(ds)
Range(crit, n) == IF crit = "gini" THEN 1 ELSE FLog2(LET k == Cardinality(DOMAIN n) IN IF k > 2 THEN k ELSE 2)
Bound(p, n) == LET r == Range(p.crit, n) IN FSqrt(FDiv(FMul(FMul(r, r), FLn(FDiv(1, p.conf))), FMul(2, FSumF(n))))

(* ---------------- the best split on an attribute ---------------- *)
NumDists(a, x) ==
    << [c \in {k \in DOMAIN a : ~FLt(x, a[k].lo)} |-> IF FGe(x, a[c].hi) THEN a[c].w ELSE Below(a[c], x)],
       [c \in {k \in DOMAIN a : FLt(x, a[k].lo) \/ ~FGe(x, a[k].hi)} |-> IF FLt(x, a[c].lo) THEN a[c].w ELSE Above(a[c], x)] >>
NumPoints(a) ==
    LET cs == Asc(DOMAIN a)
        lo == LET F[j \in 1..Len(cs)] == IF j = 1 THEN a[cs[1]].lo ELSE FMin(F[j - 1], a[cs[j]].lo) IN F[Len(cs)]
        hi == LET F[j \in 1..Len(cs)] == IF j = 1 THEN a[cs[1]].hi ELSE FMax(F[j - 1], a[cs[j]].hi) IN F[Len(cs)]
        bin == FDiv(FSub(hi, lo), 11)
        pts == Force([j \in 1..10 |-> FAdd(lo, FMul(bin, j))])
    IN SelectSeq(pts, LAMBDA x : FLt(lo, x) /\ FLt(x, hi))
Values(a) == Asc(UNION {DOMAIN a[c] : c \in DOMAIN a})
EqDists(a, v) ==
    << [c \in {k \in DOMAIN a : v \in DOMAIN a[k]} |-> a[c][v]],
       [c \in {k \in DOMAIN a : DOMAIN a[k] # {v}} |-> LET o == SelectSeq(Asc(DOMAIN a[c]), LAMBDA u : u # v) IN FSum([j \in 1..Len(o) |-> a[c][o[j]]])] >>
MultiDists(a) == LET vs == Values(a) IN [j \in 1..Len(vs) |-> [c \in {k \in DOMAIN a : vs[j] \in DOMAIN a[k]} |-> a[c][vs[j]]]]

Cand2(crit, pre, att, kind, val, ds) == [att |-> att, kind |-> kind, val |-> val, ds |-> ds, merit |-> Merit(crit, pre, ds)]
Cand(crit, pre, att, kind, val, ds) == Cand2(crit, pre, att, kind, val, Force(ds))
(* candidates of an attribute in the order they are tried; the first of the best is the attribute's suggestion *)
Cands(p, pre, att, a) ==
    IF att \in p.nom
    THEN LET vs == Values(a) IN (IF p.binary THEN <<>> ELSE << Cand(p.crit, pre, att, "multi", vs, MultiDists(a)) >>)
                                 \o [j \in 1..Len(vs) |-> Cand(p.crit, pre, att, "eq", vs[j], EqDists(a, vs[j]))]
    ELSE LET ps == NumPoints(a) IN [j \in 1..Len(ps) |-> Cand(p.crit, pre, att, "num", ps[j], NumDists(a, ps[j]))]
First(cs) == CHOOSE j \in 1..Len(cs) : (\A i \in 1..Len(cs) : FGe(cs[j].merit, cs[i].merit)) /\ (\A i \in 1..(j - 1) : FLt(cs[i].merit, cs[j].merit))
(* equal up to rounding; infinite merits, and the 0 of a Hellinger distance that is not defined, are exact *)
MeritClose(a, b) == FIsFinite(a) /\ FIsFinite(b) /\ FClose(a, b, "1e-09") /\ ~(IsIntV(a) /\ IsIntV(b))
(* suggestions: none (no split at all), then one per attribute that has any; eq: the other candidates of the attribute that are as good up to
   rounding (those that split the weights in just the same way are as good exactly, and the first of them counts) *)
Suggest(p, n, obs) ==
    LET all == Force([a \in 1..Len(obs) |-> IF IsStrV(obs[a]) THEN <<>> ELSE Cands(p, n, a, obs[a])])
        withany == SelectSeq([a \in 1..Len(obs) |-> a], LAMBDA a : all[a] # <<>>)
        best == [k \in 1..Len(withany) |-> LET cs == all[withany[k]] j == First(cs)
                                           ix == SelectSeq([i \in 1..Len(cs) |-> i], LAMBDA i : i # j /\ MeritClose(cs[i].merit, cs[j].merit)
                                                                                        /\ \A h \in 1..(i - 1) : ~Eq(cs[h].ds, cs[i].ds))
                                           IN [c |-> cs[j], eq |-> [q \in 1..Len(ix) |-> cs[ix[q]]]]]
        null == IF p.noprune THEN <<>> ELSE << [c |-> Cand(p.crit, n, 0, "none", 0, << n >>), eq |-> <<>>] >>
    IN null \o best
(* in ascending order of merit; equal ones stay in order *)
ByMerit(s) == LET o == FArgSort([k \in 1..Len(s) |-> s[k].c.merit]) IN [k \in 1..Len(s) |-> s[o[k]]]

Pure(n) == Cardinality({c \in DOMAIN n : ~FEq(n[c], 0)}) < 2

(* ---------------- leaves ---------------- *)
LeafLearn(p, l, x, y, w) ==
    IF ~l.on THEN [l EXCEPT !.n = NLearn(@, y, w)]
    ELSE LET nb == NB(p.nom, l.n, l.obs, x)
             mcright == IF DOMAIN l.n = {} THEN y = 0 ELSE ArgMax(l.n) = y
             nbright == ArgMax(nb) = y
             lo == IF Shaky(nb) THEN nbright /\ FALSE ELSE nbright
             hi == IF Shaky(nb) THEN TRUE ELSE nbright
         IN [l EXCEPT !.n = NLearn(@, y, w), !.obs = ObsLearn(p.nom, @, x, y, w),
                      !.mc = IF p.leaf = "nba" /\ mcright THEN FAdd(@, w) ELSE @,
                      !.nblo = IF p.leaf = "nba" /\ lo THEN FAdd(@, w) ELSE @,
                      !.nbhi = IF p.leaf = "nba" /\ hi THEN FAdd(@, w) ELSE @]
(* the sets of votes the leaf may answer with (one, unless rounding decides) *)
LeafVotes(p, l, x) ==
    LET nb == NB(p.nom, l.n, l.obs, x) IN
    CASE ~l.on \/ p.leaf = "mc" -> {l.n}
      [] p.leaf = "nb" -> IF FGe(FSumF(l.n), p.nbt) THEN {nb} ELSE {l.n}
      [] p.leaf = "nba" -> (IF FGt(l.mc, l.nblo) THEN {l.n} ELSE {}) \cup (IF FGt(l.mc, l.nbhi) THEN {} ELSE {nb})

(* what an attempt to split may do: a sequence of alternatives [node, grow]; one, unless rounding decides *)
Attempt(p, l) ==
    LET sug == Force(ByMerit(Force(Suggest(p, l.n, l.obs))))
        k == Len(sug)
        best == sug[k].c
        second == sug[k - 1].c
        eps == Bound(p, l.n)
        gap == FSub(best.merit, second.merit)
        yes == IF k < 2 THEN k > 0 ELSE FGt(gap, eps) \/ FLt(eps, p.tie)
        unsure == k >= 2 /\ (MeritClose(gap, eps) \/ MeritClose(eps, p.tie)) /\ ~(FGt(gap, eps) /\ FLt(eps, p.tie) /\ ~MeritClose(eps, p.tie))
        weak == IF k >= 2 /\ p.poor /\ p.leaf = "mc"
                THEN {sug[j].c.att : j \in {i \in 1..k : sug[i].c.att > 0 /\ FGt(FSub(best.merit, sug[i].c.merit), eps)}} ELSE {}
        kept == [l EXCEPT !.obs = [a \in 1..Len(@) |-> IF a \in weak THEN "off" ELSE @[a]], !.last = FSumF(l.n)]
        (* the winners: of suggestions that split the weights alike the last one counts *)
        tops == SelectSeq([j \in 1..k |-> j], LAMBDA j : (j = k \/ MeritClose(sug[j].c.merit, best.merit)) /\ \A h \in (j + 1)..k : ~Eq(sug[h].c.ds, sug[j].c.ds))
        wins == LET F[q \in 0..Len(tops)] == IF q = 0 THEN <<>> ELSE F[q - 1] \o << sug[tops[q]].c >> \o sug[tops[q]].eq IN F[Len(tops)]
        Split(c) == IF c.att = 0
                    THEN [node |-> IF p.stop THEN [Leaf(l.n) EXCEPT !.on = FALSE] ELSE Leaf(l.n), grow |-> ~p.stop]
                    ELSE [node |-> [leaf |-> FALSE, att |-> c.att, kind |-> c.kind, val |-> c.val, n |-> l.n, ch |-> [j \in 1..Len(c.ds) |-> Leaf(c.ds[j])]], grow |-> TRUE]
    IN IF Pure(l.n) THEN << [node |-> [l EXCEPT !.last = FSumF(l.n)], grow |-> TRUE] >>
       ELSE (IF yes \/ unsure THEN [q \in 1..Len(wins) |-> Split(wins[q])] ELSE <<>>) \o (IF ~yes \/ unsure THEN << [node |-> kept, grow |-> TRUE] >> ELSE <<>>)

(* the branch of a row; 0: a value that was not met *)
Branch(t, x) ==
    CASE t.kind = "num" -> IF FLe(x[t.att], t.val) THEN 1 ELSE 2
      [] t.kind = "eq" -> IF x[t.att] = t.val THEN 1 ELSE 2
      [] t.kind = "multi" -> IF \E j \in 1..Len(t.val) : t.val[j] = x[t.att] THEN CHOOSE j \in 1..Len(t.val) : t.val[j] = x[t.att] ELSE 0

(* ---------------- the tree ---------------- *)
RECURSIVE Down(_, _, _, _, _, _)
Down(p, t, grow, x, y, w) ==
    IF t.leaf
    THEN LET l == LeafLearn(p, t, x, y, w) IN
         IF grow /\ l.on /\ FGe(FSub(FSumF(l.n), l.last), p.grace) THEN Attempt(p, l) ELSE << [node |-> l, grow |-> grow] >>
    ELSE LET b == Branch(t, x) IN
         IF b = 0 THEN << [node |-> [t EXCEPT !.val = Append(@, x[t.att]), !.ch = Append(@, LeafLearn(p, Leaf(Empty), x, y, w))], grow |-> grow] >>
         ELSE LET d == Down(p, t.ch[b], grow, x, y, w) IN Force([q \in 1..Len(d) |-> [d[q] EXCEPT !.node = [t EXCEPT !.ch[b] = d[q].node]]])
(* the trees that may be there after one more row *)
Learn(p, s, x, y, w) ==
    IF FEq(w, 0) THEN << s >>
    ELSE LET d == Down(p, s.root, s.grow, x, y, w) IN Force([q \in 1..Len(d) |-> [root |-> d[q].node, none |-> FALSE, grow |-> s.grow /\ d[q].grow]])

RECURSIVE Votes(_, _, _)
Votes(p, t, x) ==
    IF t.leaf THEN LeafVotes(p, t, x)
    ELSE LET b == Branch(t, x) IN IF b = 0 THEN {t.n} ELSE Votes(p, t.ch[b], x)

RECURSIVE Leaves(_)
RECURSIVE LeavesOf(_, _)
LeavesOf(ch, j) == IF j > Len(ch) THEN 0 ELSE Leaves(ch[j]) + LeavesOf(ch, j + 1)
Leaves(t) == IF t.leaf THEN 1 ELSE LeavesOf(t.ch, 1)
RECURSIVE Splits(_)
RECURSIVE SplitsOf(_, _)
SplitsOf(ch, j) == IF j > Len(ch) THEN 0 ELSE Splits(ch[j]) + SplitsOf(ch, j + 1)
Splits(t) == IF t.leaf THEN 0 ELSE 1 + SplitsOf(t.ch, 1)
RECURSIVE Depth(_)
Depth(t) == IF t.leaf THEN 0 ELSE 1 + (LET S == {Depth(t.ch[j]) : j \in 1..Len(t.ch)} IN CHOOSE d \in S : \A e \in S : e <= d)
RECURSIVE Off(_)
RECURSIVE OffOf(_, _)
OffOf(ch, j) == IF j > Len(ch) THEN 0 ELSE Off(ch[j]) + OffOf(ch, j + 1)
Off(t) == IF t.leaf THEN (IF t.on THEN 0 ELSE 1) ELSE OffOf(t.ch, 1)
(* the rules of the tree: paths of <<attribute, relation, value>> with the class weights at the leaf, in branch order *)
RECURSIVE Rules(_)
RECURSIVE RulesOf(_, _)
Cond(t, j) == CASE t.kind = "num" -> << t.att, IF j = 1 THEN "<=" ELSE ">", t.val >>
                [] t.kind = "eq" -> << t.att, IF j = 1 THEN "=" ELSE "!=", t.val >>
                [] t.kind = "multi" -> << t.att, "=", t.val[j] >>
RulesOf(t, j) ==
    IF j > Len(t.ch) THEN <<>>
    ELSE LET r == Rules(t.ch[j]) IN Force([k \in 1..Len(r) |-> [path |-> << Cond(t, j) >> \o r[k].path, n |-> r[k].n]]) \o RulesOf(t, j + 1)
Rules(t) == IF t.leaf THEN << [path |-> <<>>, n |-> t.n] >> ELSE RulesOf(t, 1)
=============================================================================
