-------------------------------- MODULE Chunks ---------------------------------
(***************************************************************************)
(* Ensembles that learn chunk by chunk.  Rows (code 1..C, label 1..K, weight) collect until a chunk is full; then members   *)
(* are trained on it (or on rows drawn from it), weighed against it and pruned.  A member (a probe, harness/c25.py) counts  *)
(* what it is trained with and answers with these counts.                                                                    *)
(*   "bi"   BatchIncremental: the last n members, one per chunk, vote                                                        *)
(*   "awe"  Accuracy weighted ensemble (Wang et al.)                                                                         *)
(*   "nse"  Learn++.NSE (Elwell and Polikar)         "lpp"  Learn++ (Polikar et al.)                                         *)
(* p: kind, style ("sk": fit starts anew, knows the labels it met; "mf": fit continues, knows all labels), C, K, win, n,     *)
(* kept, folds, fresh, slope, cross, prune, nens, thr                                                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Real64

Zero(p) == [c \in 1..p.C |-> [l \in 1..p.K |-> 0]]
RECURSIVE Learn(_, _, _, _)
(* ids: positions in the chunk ch = [c, y, w], perhaps repeated; u: whether weights count *)
Learn(m, ch, ids, u) == IF ids = <<>> THEN m ELSE Learn([m EXCEPT ![ch.c[ids[1]]][ch.y[ids[1]]] = @ + (IF u THEN ch.w[ids[1]] ELSE 1)], ch, Tail(ids), u)
Size(ch) == Len(ch.c)
All(ch) == [j \in 1..Size(ch) |-> j]
Known(p, m) == IF p.style = "mf" THEN 1..p.K ELSE {l \in 1..p.K : \E c \in 1..p.C : m[c][l] > 0}
Says(p, m, c) == CHOOSE l \in Known(p, m) : \A h \in Known(p, m) : m[c][h] < m[c][l] \/ (m[c][h] = m[c][l] /\ l <= h)
Tot(p, m, c) == LET F[l \in 0..p.K] == IF l = 0 THEN 0 ELSE F[l - 1] + m[c][l] IN F[p.K]
Prob(p, m, c, l) == IF l \in Known(p, m) THEN FDiv(m[c][l] + 1, Tot(p, m, c) + Cardinality(Known(p, m))) ELSE 0
(* first position of the largest value; loose: a near tie that is not an exact one *)
Best(v) == CHOOSE k \in 1..Len(v) : \A h \in 1..Len(v) : FLt(v[h], v[k]) \/ (FEq(v[h], v[k]) /\ k <= h)
NearTie(v) == LET b == Best(v) IN \E h \in 1..Len(v) : ~FEq(v[h], v[b]) /\ FClose(v[h], v[b], "1e-09")
Count(S) == Cardinality(S)

(* ------------------------- BatchIncremental ------------------------- *)
BiChunk(p, s, ch) == [s EXCEPT !.mem = Append(IF Len(@) >= p.n THEN Tail(@) ELSE @, Learn(Zero(p), ch, All(ch), TRUE))]
BiVotes(p, s, c) == [l \in 1..p.K |-> Count({k \in 1..Len(s.mem) : Says(p, s.mem[k], c) = l})]
BiSays(p, s, c) == LET v == BiVotes(p, s, c) IN CHOOSE l \in 1..p.K : \A h \in 1..p.K : v[h] < v[l] \/ (v[h] = v[l] /\ l >= h)

(* ------------------------- AWE ------------------------- *)
Share(ch, l) == FDiv(Count({j \in 1..Size(ch) : ch.y[j] = l}), Size(ch))
Chance(p, ch) == FSum([l \in 1..p.K |-> LET q == Share(ch, l) IN FMul(q, FMul(FSub(1, q), FSub(1, q)))])
Met(p, ch) == {l \in 1..p.K : \E j \in 1..Size(ch) : ch.y[j] = l}
SqErr(p, m, met, ch, ids) == FDiv(FSum([k \in 1..Len(ids) |->
    LET e == IF ch.y[ids[k]] \in met THEN FSub(1, Prob(p, m, ch.c[ids[k]], ch.y[ids[k]])) ELSE 1 IN FMul(e, e)]), Len(ids))
Rest(ch, ids) == SelectSeq(All(ch), LAMBDA j : \A k \in 1..Len(ids) : ids[k] # j)
(* folds: the training rows of each fold *)
FoldsOK(p, ch, folds) == /\ Len(folds) = p.folds
                         /\ \A f \in 1..Len(folds) : LET r == Len(Rest(ch, folds[f])) IN r * p.folds >= Size(ch) - p.folds + 1 /\ r * p.folds <= Size(ch) + p.folds - 1
                                                     /\ Len(folds[f]) + r = Size(ch)
                         /\ \A j \in 1..Size(ch) : Count({f \in 1..Len(folds) : \E k \in 1..Len(Rest(ch, folds[f])) : Rest(ch, folds[f])[k] = j}) = 1
RECURSIVE FoldErrs(_, _, _, _)
FoldErrs(p, ch, folds, m) == IF folds = <<>> THEN <<>>
    ELSE LET m1 == Learn(IF p.fresh \/ p.style = "sk" THEN Zero(p) ELSE m, ch, folds[1], FALSE)
         IN <<SqErr(p, m1, Met(p, ch), ch, Rest(ch, folds[1]))>> \o FoldErrs(p, ch, Tail(folds), m1)
Worth(base, err) == FMax(0, FSub(base, err))
AweChunk(p, s, ch, folds) ==
    LET base == Chance(p, ch)
        new == [m |-> Force(Learn(Zero(p), ch, All(ch), TRUE)), met |-> Met(p, ch),
                w |-> Worth(base, FDiv(FSum(FoldErrs(p, ch, folds, Zero(p))), p.folds))]
        old == Force([k \in 1..Len(s.mem) |-> [s.mem[k] EXCEPT !.w = Worth(base, SqErr(p, s.mem[k].m, s.mem[k].met, ch, All(ch)))]])
        ws == [k \in 1..Len(old) |-> FNeg(old[k].w)]
        worst == Best(ws)
    IN IF Len(old) < p.kept THEN [s EXCEPT !.mem = Append(old, new)]
       ELSE [s EXCEPT !.mem = IF FGt(new.w, old[worst].w) THEN Append([k \in 1..(Len(old) - 1) |-> old[IF k < worst THEN k ELSE k + 1]], new) ELSE old,
                      !.loose = @ \/ NearTie(Append(ws, FNeg(new.w)))]
(* the n most valuable members vote with their values; ties among members: any of them may be left out *)
Rank(s, k) == Count({h \in 1..Len(s.mem) : FGt(s.mem[h].w, s.mem[k].w) \/ (FEq(s.mem[h].w, s.mem[k].w) /\ h < k)})
Voters(p, s) == {k \in 1..Len(s.mem) : Rank(s, k) < p.n}
AweVote(p, s, c, l) == FSum([k \in 1..Len(s.mem) |-> IF k \in Voters(p, s) /\ Says(p, s.mem[k].m, c) = l THEN s.mem[k].w ELSE 0])
AweOK(p, s, c, l) == /\ \E k \in 1..Len(s.mem) : Says(p, s.mem[k].m, c) = l
                     /\ \A h \in 1..p.K : FGe(FAdd(AweVote(p, s, c, l), "1e-09"), AweVote(p, s, c, h))
AweTied(p, s) == NearTie([k \in 1..Len(s.mem) |-> s.mem[k].w]) \/ \E a \in Voters(p, s) : \E b \in (1..Len(s.mem)) \ Voters(p, s) : FGt(s.mem[a].w, 0) /\ FClose(s.mem[a].w, s.mem[b].w, "1e-09")

(* ------------------------- Learn++.NSE ------------------------- *)
NseVote(p, s, c) == [l \in 1..p.K |-> FSum([k \in 1..Len(s.mem) |-> IF FGt(s.mem[k].w, 0) THEN FMul(s.mem[k].w, Prob(p, s.mem[k].m, c, l)) ELSE 0])]
NseChunk(p, s, ch) ==
    LET m == Size(ch)
        has == s.mem # <<>>
        v == Force([c \in 1..p.C |-> IF has THEN NseVote(p, s, c) ELSE <<0>>])
        right == [j \in 1..m |-> has /\ Best(v[ch.c[j]]) = ch.y[j]]
        et == FDiv(Count({j \in 1..m : ~right[j]}), m)
        raw == [j \in 1..m |-> IF right[j] THEN FDiv(et, m) ELSE FDiv(1, m)]
        sum == FSum(raw)
        D == Force([j \in 1..m |-> IF FGt(sum, 0) THEN FDiv(raw[j], sum) ELSE raw[j]])
        ms == Append(s.mem, [m |-> Force(Learn(Zero(p), ch, All(ch), FALSE)), b |-> <<>>, o |-> <<>>, w |-> 0])
        t == Len(ms)
        wrong == [k \in 1..t |-> [j \in 1..m |-> Says(p, ms[k].m, ch.c[j]) # ch.y[j]]]
        raw2 == Force([k \in 1..t |-> FSum([j \in 1..m |-> IF wrong[k][j] THEN D[j] ELSE 0])])
        e == Force([k \in 1..t |-> IF k < t /\ FGt(raw2[k], "0.5") THEN "0.5" ELSE raw2[k]])
        om(k) == LET x == FDiv(1, FAdd(1, FExp(FMul(FNeg(p.slope), t - k - p.cross)))) IN FDiv(x, FAdd(FSum(ms[k].o), x))
        up == Force([k \in 1..t |-> LET b == Append(ms[k].b, FDiv(e[k], FSub(1, e[k])))
                                        o == Append(ms[k].o, om(k))
                                    IN [m |-> ms[k].m, b |-> b, o |-> o, w |-> FLn(FDiv(1, FAdd(FDot(b, o), "1e-50")))]])
        out == IF p.prune = "age" THEN 1 ELSE Best(e)
        tie == \E k \in 1..t : k # Best(e) /\ FClose(e[k], e[Best(e)], "1e-09") /\ ~FEq(e[k], e[Best(e)]) /\ wrong[k] # wrong[Best(e)]
        over == p.prune # "none" /\ t > p.n
    IN [s EXCEPT !.mem = IF over THEN [k \in 1..(t - 1) |-> up[IF k < out THEN k ELSE k + 1]] ELSE up,
                 !.loose = @ \/ (has /\ \E c \in 1..p.C : NearTie(v[c])) \/ (over /\ p.prune = "error" /\ tie)]

(* ------------------------- Learn++ ------------------------- *)
Err(D, ids, bad) == FDiv(FSum([k \in 1..Len(ids) |-> IF bad[k] THEN D[ids[k]] ELSE 0]), FSum([k \in 1..Len(ids) |-> D[ids[k]]]))
Weight(e) == FLn(FDiv(1, FAdd(e, "1e-50")))
LppVote(p, ens, c) == [l \in 1..p.K |-> FSum([k \in 1..Len(ens) |-> IF Says(p, ens[k].m, c) = l THEN Weight(ens[k].e) ELSE 0])]
Norm(D) == LET z == FSum(D) IN [j \in 1..Len(D) |-> FDiv(D[j], z)]
Plus(a, b) == <<FAdd(a[1], b[1]), FAdd(a[2], b[2])>>
(* deviation of the drawn rows' probabilities from their mean *)
Deviation(D, ids) == LET mu == FDot(D, D)
                         va == FSub(FSum([j \in 1..Len(D) |-> FMul(D[j], FMul(D[j], D[j]))]), FMul(mu, mu))
                     IN <<FMul(Len(D), FSub(FSum([k \in 1..Len(ids) |-> D[ids[k]]]), FMul(Len(ids), mu))), FMul(FMul(Len(D), Len(D)), FMul(Len(ids), FMax(0, va)))>>
(* one attempt at the next hypothesis: a = [ens, D (normalised), loose, bad, dev]; x = [tr, te]: the rows trained with and tested on *)
Attempt(p, a, ch, x) ==
    LET D == a.D
        half == Size(ch) \div 2
        m == Force(Learn(Zero(p), ch, x.tr, FALSE))
        ids == x.te
        bad == IF a.over THEN "more hypotheses than asked for are trained"
               ELSE IF Len(x.tr) # half \/ Len(ids) # half THEN "a hypothesis is not trained and tested on half a window of rows"
               ELSE IF \E k \in 1..half : ~FGt(D[x.tr[k]], 0) \/ ~FGt(D[ids[k]], 0) THEN "a row of probability 0 is drawn" ELSE ""
        e1 == Err(D, ids, [k \in 1..half |-> Says(p, m, ch.c[ids[k]]) # ch.y[ids[k]]])
        try == Append(a.ens, [m |-> m, e |-> FDiv(e1, FSub(1, e1))])
        v == Force([c \in 1..p.C |-> LppVote(p, try, c)])
        miss == [j \in 1..Size(ch) |-> Best(v[ch.c[j]]) # ch.y[j]]
        e2 == Err(D, All(ch), miss)
        ok == FLt(e1, p.thr) /\ FLt(e2, p.thr)
        last == Len(try) = p.n
        D2 == IF ~ok \/ last THEN D ELSE [j \in 1..Size(ch) |-> IF miss[j] THEN D[j] ELSE FMul(D[j], FDiv(e2, FSub(1, e2)))]
        z == FSum(D2)
    IN IF bad # "" THEN [a EXCEPT !.bad = bad]
       ELSE [a EXCEPT !.ens = Force(IF ok THEN try ELSE @), !.D = Force(IF FGt(z, 0) THEN Norm(D2) ELSE D2), !.over = ok /\ (last \/ ~FGt(z, 0)),
                      !.loose = @ \/ FClose(e1, p.thr, "1e-09") \/ (FLt(e1, p.thr) /\ (FClose(e2, p.thr, "1e-09") \/ \E c \in 1..p.C : NearTie(v[c]))),
                      !.dev = Force(Plus(Plus(@, Deviation(D, x.tr)), Deviation(D, ids)))]
RECURSIVE Attempts(_, _, _, _)
Attempts(p, a, ch, xs) == IF xs = <<>> \/ a.bad # "" THEN a ELSE Attempts(p, Attempt(p, a, ch, xs[1]), ch, Tail(xs))
LppChunk(p, s, ch, xs) ==
    LET a == Attempts(p, [ens |-> <<>>, D |-> [j \in 1..Size(ch) |-> FDiv(1, Size(ch))], over |-> FALSE, loose |-> FALSE, bad |-> "", dev |-> s.dev], ch, xs)
        more == Append(s.mem, a.ens)
    IN [s |-> [s EXCEPT !.mem = IF Len(more) > p.nens THEN Tail(more) ELSE more, !.loose = @ \/ a.loose, !.dev = a.dev],
        bad |-> IF a.loose THEN "" ELSE IF a.bad # "" THEN a.bad ELSE IF ~a.over THEN "training ends before the hypotheses are good enough" ELSE ""]
LppTotal(p, s, c) == [l \in 1..p.K |-> FSum([g \in 1..Len(s.mem) |-> LppVote(p, s.mem[g], c)[l]])]
=============================================================================
