------------------------------- MODULE RegTree --------------------------------
(***************************************************************************)
(* Hoeffding trees for regression: of one target (p.kind "single"), of     *)
(* several (p.kind "isoup"), of several with stacked perceptrons ("sst").  *)
(* Statistics of rows are <<weight, sums of the targets, sums of their     *)
(* squares>>; targets are always sequences, of length 1 for "single".      *)
(*   leaf  [leaf |-> TRUE, n, obs, last, pw]; obs per attribute "off", a   *)
(*         function from nominal values to statistics, or a search tree    *)
(*         <<>> or <<[v, n, l, r]>> over the numeric values met: n counts  *)
(*         the rows that came to this node with a value of at most v       *)
(*   split [leaf |-> FALSE, att, kind, val, ch, n]; kinds as in Hoeffding  *)
(* pw: the weights of the leaf's perceptron, one row per target (<<>>: not *)
(* yet trained); sw: those of the second layer of "sst", which sees the    *)
(* first one's answers; err: the faded errors, per target, of the mean,    *)
(* the perceptron and the second layer, between which leaf "adaptive"      *)
(* chooses for every target.                                               *)
(* g: statistics of the whole stream (samples seen, sums of the target and *)
(* of every attribute), by which the perceptron's inputs are normalised.   *)
(* p: nom, grace, conf, tie, binary, poor, noprune, leaf, lr, decay,       *)
(*    const, w0, s0 (weights new perceptrons start with), kind, k          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Real64

Vec(a, b, Op(_, _)) == [j \in 1..Len(b) |-> Op(a[j], b[j])]
Zeros(k) == [j \in 1..k |-> 0]
Zero(k) == << 0, Zeros(k), Zeros(k) >>
Add(n, y, w) == Force(<< FAdd(n[1], w), [j \in 1..Len(y) |-> FAdd(n[2][j], FMul(w, y[j]))], [j \in 1..Len(y) |-> FAdd(n[3][j], FMul(FMul(w, y[j]), y[j]))] >>)
Plus(n, m) == Force(<< FAdd(n[1], m[1]), Vec(n[2], m[2], FAdd), Vec(n[3], m[3], FAdd) >>)
Minus(n, m) == Force(<< FSub(n[1], m[1]), Vec(n[2], m[2], FSub), Vec(n[3], m[3], FSub) >>)
New(y, w) == Add(Zero(Len(y)), y, w)
LeafOf(n, pw, sw) == [leaf |-> TRUE, n |-> n, obs |-> <<>>, last |-> n[1], pw |-> pw, sw |-> sw, err |-> [e \in 1..3 |-> Zeros(Len(n[2]))]]
Leaf(k) == LeafOf(Zero(k), <<>>, <<>>)
Tree0(k) == [root |-> Leaf(k), none |-> TRUE, g |-> [n |-> Zero(k), s |-> <<>>, q |-> <<>>]]

(* ---------------- merit ---------------- *)
Scatter(n, j) == FSub(n[3][j], FDiv(FMul(n[2][j], n[2][j]), n[1]))
SD(p, n) ==
    IF p.kind = "single" THEN LET v == FDiv(Scatter(n, 1), n[1]) IN IF FGt(v, 0) THEN FSqrt(v) ELSE 0
    ELSE FDiv(FSum([j \in 1..p.k |-> FDiv(Scatter(n, j), FSub(n[1], 1))]), p.k)
Merit(p, pre, ds) ==
    IF \E j \in 1..Len(ds) : FLt(ds[j][1], 5) THEN 0
    ELSE FSub(SD(p, pre), FSum([j \in 1..Len(ds) |-> FMul(FDiv(ds[j][1], pre[1]), SD(p, ds[j]))]))
Bound(p, n) == FSqrt(FDiv(FLn(FDiv(1, p.conf)), FMul(2, n[1])))

(* ---------------- numeric values ---------------- *)
RECURSIVE Insert(_, _, _, _)
Insert(t, x, y, w) ==
    IF t = <<>> THEN << [v |-> x, n |-> New(y, w), l |-> <<>>, r |-> <<>>] >>
    ELSE LET d == t[1] IN
         IF FEq(x, d.v) THEN << [d EXCEPT !.n = Add(@, y, w)] >>
         ELSE IF FLt(x, d.v) THEN << [d EXCEPT !.n = Add(@, y, w), !.l = Insert(@, x, y, w)] >>
         ELSE << [d EXCEPT !.r = Insert(@, x, y, w)] >>
(* the values in order with the statistics at or below each; base: what lies to the left of the subtree *)
RECURSIVE Points(_, _)
Points(t, base) ==
    IF t = <<>> THEN <<>>
    ELSE LET d == t[1] IN Points(d.l, base) \o << [v |-> d.v, n |-> Plus(d.n, base)] >> \o Points(d.r, Plus(base, d.n))
(* forgetting the values that would split badly: bottom up, a node only goes when all below it went *)
RECURSIVE Prune(_, _, _, _, _, _)
Prune(p, t, base, pre, sdr, limit) ==
    LET d == t[1]
        l == IF d.l = <<>> THEN <<>> ELSE Prune(p, d.l, base, pre, sdr, limit)
        r == IF d.r = <<>> \/ l # <<>> THEN d.r ELSE Prune(p, d.r, Plus(base, d.n), pre, sdr, limit)
        left == Plus(d.n, base)
    IN IF l = <<>> /\ r = <<>> /\ FLt(FDiv(Merit(p, pre, << left, Minus(pre, left) >>), sdr), limit) THEN <<>>
       ELSE << [d EXCEPT !.l = l, !.r = r] >>

(* ---------------- candidates ---------------- *)
Cand(p, pre, att, kind, val, ds) == [att |-> att, kind |-> kind, val |-> val, ds |-> ds, merit |-> Merit(p, pre, ds)]
Cands(p, pre, att, a) ==
    IF att \in p.nom
    THEN LET vs == Ascending(DOMAIN a) IN
         (IF p.binary THEN <<>> ELSE << Cand(p, pre, att, "multi", vs, [j \in 1..Len(vs) |-> a[vs[j]]]) >>)
         \o [j \in 1..Len(vs) |-> Cand(p, pre, att, "eq", vs[j], << a[vs[j]], Minus(pre, a[vs[j]]) >>)]
    ELSE LET ps == Force(Points(a, Zero(p.k))) IN [j \in 1..Len(ps) |-> Cand(p, pre, att, "num", ps[j].v, << ps[j].n, Minus(pre, ps[j].n) >>)]
First(cs) == CHOOSE j \in 1..Len(cs) : (\A i \in 1..Len(cs) : FGe(cs[j].merit, cs[i].merit)) /\ (\A i \in 1..(j - 1) : FLt(cs[i].merit, cs[j].merit))
MeritClose(a, b) == FClose(a, b, "1e-09") /\ ~(IsIntV(a) /\ IsIntV(b))
Suggest(p, n, obs) ==
    LET all == Force([a \in 1..Len(obs) |-> IF IsStrV(obs[a]) THEN <<>> ELSE Cands(p, n, a, obs[a])])
        withany == SelectSeq([a \in 1..Len(obs) |-> a], LAMBDA a : all[a] # <<>>)
        best == [k \in 1..Len(withany) |-> LET cs == all[withany[k]] j == First(cs)
                                           ix == SelectSeq([i \in 1..Len(cs) |-> i], LAMBDA i : i # j /\ MeritClose(cs[i].merit, cs[j].merit)
                                                                                        /\ \A h \in 1..(i - 1) : ~Eq(cs[h].ds, cs[i].ds))
                                           IN [c |-> cs[j], eq |-> [q \in 1..Len(ix) |-> cs[ix[q]]]]]
    IN (IF p.noprune THEN <<>> ELSE << [c |-> [att |-> 0, kind |-> "none", val |-> 0, ds |-> << n >>, merit |-> 0], eq |-> <<>>] >>) \o best
ByMerit(s) == LET o == FArgSort([k \in 1..Len(s) |-> s[k].c.merit]) IN [k \in 1..Len(s) |-> s[o[k]]]

(* ---------------- the perceptrons of a leaf ---------------- *)
(* deviation of what has the sum s and the sum q of squares over the weight n *)
Dev(p, q, s, n) ==
    IF FLe(n, 1) THEN 0
    ELSE LET a == FSub(q, FDiv(FMul(s, s), n)) IN
         IF FLe(a, 0) THEN 0 ELSE IF p.kind = "single" THEN FSqrt(FDiv(a, n)) ELSE FSqrt(FDiv(a, FSub(n, 1)))
Range(p) == IF p.kind = "single" THEN 3 ELSE 1
Scaled(p, v, q, s, n) == LET d == Dev(p, q, s, n) IN IF FGt(n, 1) /\ FGt(d, 0) THEN FDiv(FSub(v, FDiv(s, n)), FMul(Range(p), d)) ELSE 0
Normal(p, g, x) == Force([a \in 1..Len(x) |-> IF p.kind = "single" /\ a \in p.nom THEN x[a] ELSE Scaled(p, x[a], g.q[a], g.s[a], g.n[1])]
                         \o << IF FGt(g.n[1], 1) THEN 1 ELSE 0 >>)
Target(p, g, y) == Force([j \in 1..Len(y) |-> Scaled(p, y[j], g.n[3][j], g.n[2][j], g.n[1])])
Back(p, g, v, j) == FAdd(FMul(FMul(v, Dev(p, g.n[3][j], g.n[2][j], g.n[1])), Range(p)), FDiv(g.n[2][j], g.n[1]))
Unit(v) == LET t == FSum([j \in 1..Len(v) |-> FAbs(v[j])]) IN [j \in 1..Len(v) |-> IF FGt(t, 0) THEN FDiv(v[j], t) ELSE v[j]]
Units(m) == Force([j \in 1..Len(m) |-> Unit(m[j])])
Out(m, x) == Force([j \in 1..Len(m) |-> FDot(m[j], x)])
Pull(m, y, o, x, rate) == Units([j \in 1..Len(m) |-> [a \in 1..Len(x) |-> FAdd(m[j][a], FMul(FMul(rate, FSub(y[j], o[j])), x[a]))]])
Means(n) == IF FEq(n[1], 0) THEN Zeros(Len(n[2])) ELSE [j \in 1..Len(n[2]) |-> FDiv(n[2][j], n[1])]
Fade(e, y, o) == [j \in 1..Len(y) |-> FAdd(FMul("0.95", e[j]), FAbs(FSub(y[j], o[j])))]
RECURSIVE Train(_, _, _, _, _, _)
Train(p, g, l, x, y, k) ==
    IF k = 0 THEN l
    ELSE LET rate == IF p.const THEN p.lr ELSE FDiv(p.lr, FAdd(1, FMul(l.n[1], p.decay)))
             o == Out(l.pw, x)
             o2 == IF p.kind = "sst" THEN Out(l.sw, o \o << 1 >>) ELSE <<>>
             m == IF p.leaf = "adaptive" THEN Target(p, g, Means(l.n)) ELSE <<>>
         IN Train(p, g, [l EXCEPT !.pw = Pull(@, y, o, x, rate), !.sw = IF @ = <<>> THEN @ ELSE Pull(@, y, o2, o \o << 1 >>, rate),
                                  !.err = IF p.leaf # "adaptive" THEN @
                                          ELSE Force(<< Fade(@[1], y, m), Fade(@[2], y, o), IF o2 = <<>> THEN @[3] ELSE Fade(@[3], y, o2) >>)], x, y, k - 1)
Fresh(p, l) == IF l.pw # <<>> THEN l ELSE [l EXCEPT !.pw = IF p.kind = "single" THEN p.w0 ELSE Units(p.w0), !.sw = IF p.kind = "sst" THEN Units(p.s0) ELSE <<>>]
Wins(a, b) == FEq(a, b) \/ FLt(a, b) \/ FClose(a, b, "1e-09")
(* what a leaf may answer: per target one of the predictors with the least error, the more elaborate one when they are the same, the mean last *)
Answers(p, g, l, x) ==
    IF l.pw = <<>> \/ (p.kind # "single" /\ FLe(g.n[1], 1)) THEN [j \in 1..p.k |-> << Means(l.n)[j] >>]
    ELSE LET o == Out(l.pw, Normal(p, g, x))
             o2 == IF p.kind = "sst" THEN Out(l.sw, o \o << 1 >>) ELSE <<>>
         IN IF p.leaf # "adaptive" THEN [j \in 1..p.k |-> << Back(p, g, IF p.kind = "sst" THEN o2[j] ELSE o[j], j) >>]
            ELSE [j \in 1..p.k |->
                    LET m == l.err[1][j] a == l.err[2][j] b == l.err[3][j]
                        one(v) == << Back(p, g, v, j) >>
                        mean == << Means(l.n)[j] >>
                    IN IF p.kind = "isoup"
                       THEN IF FEq(a, m) THEN one(o[j])
                            ELSE (IF Wins(a, m) THEN one(o[j]) ELSE <<>>) \o (IF Wins(m, a) THEN mean ELSE <<>>)
                       ELSE IF FEq(m, a) /\ FEq(m, b) THEN one(o[j])
                            ELSE (IF Wins(m, a) /\ Wins(m, b) THEN mean ELSE <<>>) \o (IF Wins(a, m) /\ Wins(a, b) THEN one(o[j]) ELSE <<>>)
                                 \o (IF Wins(b, m) /\ Wins(b, a) THEN one(o2[j]) ELSE <<>>)]

(* ---------------- leaves ---------------- *)
Upd(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
LeafLearn(p, g, l, x, y, w) ==
    LET o0 == IF l.obs = <<>> THEN [a \in 1..Len(x) |-> IF a \in p.nom THEN [v \in {} |-> 0] ELSE <<>>] ELSE l.obs
        o1 == [a \in 1..Len(x) |-> IF IsStrV(o0[a]) THEN "off"
                                   ELSE IF a \in p.nom THEN Upd(o0[a], x[a], IF x[a] \in DOMAIN o0[a] THEN Add(o0[a][x[a]], y, w) ELSE New(y, w))
                                   ELSE Insert(o0[a], x[a], y, w)]
        l1 == [l EXCEPT !.n = Add(@, y, w), !.obs = Force(o1)]
    IN IF p.leaf = "mean" THEN l1
       ELSE Train(p, g, Fresh(p, l1), Normal(p, g, x), Target(p, g, y), FFloor(w))

Attempt(p, l) ==
    LET sug == Force(ByMerit(Force(Suggest(p, l.n, l.obs))))
        k == Len(sug)
        best == sug[k].c
        second == sug[k - 1].c
        eps == Bound(p, l.n)
        some == FGt(best.merit, 0)
        ratio == IF k >= 2 /\ some THEN FDiv(second.merit, best.merit) ELSE 0
        less == FSub(1, eps)
        yes == k > 0 /\ some /\ (k < 2 \/ FLt(ratio, less) \/ FLt(eps, p.tie))
        noise == k > 0 /\ ~IsIntV(best.merit) /\ FLt(FAbs(best.merit), FMul("1e-11", FAdd(1, SD(p, l.n)))) /\ ~FEq(best.merit, 0)
        unsure == noise \/ (k >= 2 /\ some /\ (FClose(ratio, less, "1e-09") \/ FClose(eps, p.tie, "1e-09")))
        poor == IF p.poor /\ k >= 2 /\ some
                THEN {sug[j].c.att : j \in {i \in 1..k : sug[i].c.att > 0 /\ FLt(FDiv(sug[i].c.merit, best.merit), FSub(ratio, FMul(2, eps)))}} ELSE {}
        forget == k >= 2 /\ some /\ FGt(second.merit, 0)
        limit == FSub(ratio, FMul(2, eps))
        kept == [l EXCEPT !.obs = Force([a \in 1..Len(@) |-> IF a \in poor \/ IsStrV(@[a]) THEN "off"
                                                             ELSE IF forget /\ a \notin p.nom /\ @[a] # <<>> THEN Prune(p, @[a], Zero(p.k), l.n, best.merit, limit) ELSE @[a]]),
                          !.last = l.n[1]]
        tops == SelectSeq([j \in 1..k |-> j], LAMBDA j : sug[j].c.att > 0 /\ (j = k \/ MeritClose(sug[j].c.merit, best.merit)) /\ \A h \in (j + 1)..k : ~Eq(sug[h].c.ds, sug[j].c.ds))
        wins == LET F[q \in 0..Len(tops)] == IF q = 0 THEN <<>> ELSE F[q - 1] \o << sug[tops[q]].c >> \o sug[tops[q]].eq IN F[Len(tops)]
        Split(c) == [leaf |-> FALSE, att |-> c.att, kind |-> c.kind, val |-> c.val, n |-> l.n, ch |-> [j \in 1..Len(c.ds) |-> LeafOf(c.ds[j], l.pw, l.sw)]]
    IN (IF yes \/ unsure THEN [q \in 1..Len(wins) |-> Split(wins[q])] ELSE <<>>) \o (IF ~yes \/ unsure THEN << kept >> ELSE <<>>)

Branch(t, x) ==
    CASE t.kind = "num" -> IF FLe(x[t.att], t.val) THEN 1 ELSE 2
      [] t.kind = "eq" -> IF x[t.att] = t.val THEN 1 ELSE 2
      [] t.kind = "multi" -> IF \E j \in 1..Len(t.val) : t.val[j] = x[t.att] THEN CHOOSE j \in 1..Len(t.val) : t.val[j] = x[t.att] ELSE 0

(* ---------------- the tree ---------------- *)
RECURSIVE Down(_, _, _, _, _, _)
Down(p, g, t, x, y, w) ==
    IF t.leaf
    THEN LET l == LeafLearn(p, g, t, x, y, w) IN
         IF FGe(FSub(l.n[1], l.last), p.grace) THEN Attempt(p, l) ELSE << l >>
    ELSE LET b == Branch(t, x) IN
         IF b = 0 THEN << [t EXCEPT !.val = Append(@, x[t.att]), !.ch = Append(@, LeafLearn(p, g, Leaf(p.k), x, y, w))] >>
         ELSE LET d == Down(p, g, t.ch[b], x, y, w) IN Force([q \in 1..Len(d) |-> [t EXCEPT !.ch[b] = d[q]]])
Seen(p, g, x, y, w) ==
    LET s == IF g.s = <<>> THEN [a \in 1..Len(x) |-> 0] ELSE g.s q == IF g.q = <<>> THEN [a \in 1..Len(x) |-> 0] ELSE g.q IN
    Force([n |-> Add(g.n, y, w), s |-> [a \in 1..Len(x) |-> FAdd(s[a], FMul(w, x[a]))], q |-> [a \in 1..Len(x) |-> FAdd(q[a], FMul(FMul(w, x[a]), x[a]))]])
Learn(p, s, x, y, w) ==
    IF FEq(w, 0) THEN << s >>
    ELSE LET g == Seen(p, s.g, x, y, w) d == Down(p, g, s.root, x, y, w) IN Force([q \in 1..Len(d) |-> [root |-> d[q], none |-> FALSE, g |-> g]])

RECURSIVE Value(_, _, _, _)
Value(p, g, t, x) ==
    IF t.leaf THEN Answers(p, g, t, x)
    ELSE LET b == Branch(t, x) IN IF b = 0 THEN [j \in 1..p.k |-> << Means(t.n)[j] >>] ELSE Value(p, g, t.ch[b], x)

RECURSIVE LeafSeq(_)
RECURSIVE LeafSeqOf(_, _)
Cond(t, j) == CASE t.kind = "num" -> << t.att, IF j = 1 THEN "<=" ELSE ">", t.val >>
                [] t.kind = "eq" -> << t.att, IF j = 1 THEN "=" ELSE "!=", t.val >>
                [] t.kind = "multi" -> << t.att, "=", t.val[j] >>
LeafSeqOf(t, j) ==
    IF j > Len(t.ch) THEN <<>>
    ELSE LET r == LeafSeq(t.ch[j]) IN Force([k \in 1..Len(r) |-> [path |-> << Cond(t, j) >> \o r[k].path, n |-> r[k].n]]) \o LeafSeqOf(t, j + 1)
(* paths to the leaves in branch order, with the statistics there *)
LeafSeq(t) == IF t.leaf THEN << [path |-> <<>>, n |-> t.n] >> ELSE LeafSeqOf(t, 1)
RECURSIVE Splits(_)
RECURSIVE SplitsOf(_, _)
SplitsOf(ch, j) == IF j > Len(ch) THEN 0 ELSE Splits(ch[j]) + SplitsOf(ch, j + 1)
Splits(t) == IF t.leaf THEN 0 ELSE 1 + SplitsOf(t.ch, 1)
RECURSIVE Depth(_)
Depth(t) == IF t.leaf THEN 0 ELSE 1 + (LET S == {Depth(t.ch[j]) : j \in 1..Len(t.ch)} IN CHOOSE d \in S : \A e \in S : e <= d)
=============================================================================
