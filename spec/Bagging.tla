------------------------------- MODULE Bagging --------------------------------
(***************************************************************************)
(* Online bagging and boosting.  A member counts what it is taught: cnt[c][l] is the weight of the rows of     *)
(* code c-1 and label l-1 it has seen since it was made or reset, and it answers with these counts (a probe,  *)
(* harness/c24.py).  How often a member is taught a row is a random draw: the draws are inputs of the         *)
(* specification, and dev collects how far they are from their law.  ad is the member's change detector (on   *)
(* its errors, looked at after it was taught), b its record as a booster.                                      *)
(* p: kind, n members, K labels, C codes, watch ("none", "err", "acc"), ad (detector parameters), alg, w      *)
(* (leveraging), rate (sampling rate), cp and cn (costs), coded (output codes)                                *)
(***************************************************************************)
EXTENDS Adwin

Tiny == "2.220446049250313e-16"
B0 == [sc |-> 0, sw |-> 0, eps |-> 0, tp |-> 0, fn |-> 0, tn |-> 0, fp |-> 0, sum |-> 0, wacc |-> 0, werr |-> 0, pos |-> 0, neg |-> 0]
Cnt0(p) == [c \in 1..p.C |-> [l \in 1..p.K |-> 0]]
Mem0(p) == Force([cnt |-> Cnt0(p), any |-> FALSE, ad |-> AInit, b |-> B0, dv |-> <<0, 0>>, code |-> [l \in 1..p.K |-> -1]])
Ens0(p) == [m |-> [j \in 1..p.n |-> Mem0(p)], npos |-> 0, nneg |-> 0, posx |-> <<>>, loose |-> FALSE,
            dev |-> [x \in {"mean", "spread", "zeros", "members", "rows"} |-> <<0, 0>>], draws |-> 0, resets |-> <<>>, t |-> 0]

Votes(p, mem, code) == LET q == mem.cnt[code + 1]
                           tot == LET F[l \in 0..p.K] == IF l = 0 THEN 0 ELSE F[l - 1] + q[l] IN F[p.K]
                       IN [l \in 1..p.K |-> IF tot = 0 THEN 0 ELSE FDiv(q[l], tot)]
Label(p, mem, code) == LET q == mem.cnt[code + 1] IN
    (CHOOSE l \in 1..p.K : \A h \in 1..p.K : q[h] < q[l] \/ (q[h] = q[l] /\ l <= h)) - 1
(* the label a member is to learn for a row: its output code when there are codes *)
Target(p, mem, y) == IF p.coded THEN mem.code[y + 1] ELSE y
Teach(p, mem, code, y, amount) == IF amount = 0 THEN mem ELSE [mem EXCEPT !.cnt[code + 1][y + 1] = @ + amount, !.any = TRUE]

(* ------------------------- how often a row is taught ------------------------- *)
Poisson(lam) == [law |-> "poisson", at |-> 0, v |-> lam]
More(lam) == [law |-> "poisson", at |-> 1, v |-> lam]          \* one more than a Poisson draw
Coin(q) == [law |-> "coin", at |-> 0, v |-> q]
RusLam(p, s, b, lam, y) ==
    LET both == FAdd(b.pos, b.neg)
        all == FAdd(s.npos, s.nneg)
    IN CASE p.alg = 1 /\ y = 1 -> IF s.nneg = 0 THEN 1
              ELSE FMul(lam, FMul(FDiv(both, FAdd(b.pos, FMul(b.neg, FMul(p.rate, FDiv(s.npos, s.nneg))))), FDiv(FMul(FAdd(p.rate, 1), s.npos), all)))
         [] p.alg = 1 /\ y # 1 -> IF s.npos = 0 THEN 1
              ELSE FMul(lam, FMul(FDiv(both, FAdd(b.pos, FMul(b.neg, FDiv(s.nneg, FMul(s.npos, p.rate))))), FDiv(FMul(FAdd(p.rate, 1), s.npos), all)))
         [] p.alg = 2 /\ y = 1 -> FDiv(FDiv(FMul(lam, s.npos), all), FDiv(b.pos, both))
         [] p.alg = 2 /\ y # 1 -> FDiv(FDiv(FMul(FMul(lam, p.rate), s.npos), all), FDiv(b.neg, both))
         [] p.alg = 3 -> IF y = 1 THEN lam ELSE FDiv(lam, p.rate)
Law(p, s, i, lam, code, y) ==
    LET mem == s.m[i]
        part == FDiv(i, p.n)
    IN CASE p.kind \in {"oza", "ozaadwin"} -> Poisson(1)
         [] p.kind = "lev" /\ p.alg = 1 -> Poisson(p.w)
         [] p.kind = "lev" /\ p.alg = 2 ->
              IF Label(p, mem, code) # y THEN Coin(1)
              ELSE LET e == Estimation(mem.ad) IN IF FGe(e, "0.5") THEN IF FEq(e, 1) THEN Coin(0) ELSE Coin(1) ELSE Coin(FDiv(e, FSub(1, e)))
         [] p.kind = "lev" /\ p.alg = 3 -> Coin("0.5")
         [] p.kind = "lev" /\ p.alg = 4 -> More(1)
         [] p.kind = "lev" /\ p.alg = 5 -> Coin(FSub(1, FExp(-1)))
         [] p.kind \in {"boost", "adac2", "csb2"} -> Poisson(lam)
         [] p.kind = "rus" -> Poisson(RusLam(p, s, mem.b, lam, y))
         [] p.kind = "uob" -> Poisson(IF y = 1 THEN FMul(part, p.rate) ELSE part)
         [] p.kind = "smote" -> Poisson(IF y = 1 THEN FMul(part, p.rate) ELSE 1)
(* deviation of a draw, and its variance *)
Off(law, k) == <<FSub(k - law.at, law.v), IF law.law = "coin" THEN FMul(law.v, FSub(1, law.v)) ELSE law.v>>
Impossible(law, k) ==
    \/ k < law.at
    \/ law.law = "coin" /\ (k > 1 \/ (k = 1 /\ FEq(law.v, 0)) \/ (k = 0 /\ FEq(law.v, 1)))
    \/ law.law = "poisson" /\ FEq(law.v, 0) /\ k > law.at
Plus(a, b) == <<FAdd(a[1], b[1]), FAdd(a[2], b[2])>>
Cross(a, b) == <<FMul(a[1], b[1]), FMul(a[2], b[2])>>
Collect(dev, law, k, prev, last) ==
    LET d == Off(law, k)
        z == FExp(FNeg(law.v))
    IN [dev EXCEPT !["mean"] = Plus(@, d),
                   !["spread"] = IF law.law = "coin" THEN @ ELSE Plus(@, <<FSub(FMul(d[1], d[1]), law.v), FAdd(FMul(2, FMul(law.v, law.v)), law.v)>>),
                   !["zeros"] = IF law.law = "coin" THEN @ ELSE Plus(@, <<FSub(IF k = law.at THEN 1 ELSE 0, z), FMul(z, FSub(1, z))>>),
                   !["members"] = Plus(@, Cross(d, prev)), !["rows"] = Plus(@, Cross(d, last))]
(* 7 standard deviations and some slack for small numbers: not a matter of luck *)
Wild(x, slack) == FGt(FAbs(x[1]), FAdd(FMul(7, FSqrt(x[2])), slack))

(* ------------------------- boosting ------------------------- *)
Boosts(p) == p.kind \in {"boost", "adac2", "csb2", "rus"}
Share(a, b) == FDiv(a, FAdd(a, b))
(* the record b of a member and the weight lam handed on to the next one, given what the member now says *)
Boost(p, b, lam, said, y) ==
    LET right == said = y
        sc == IF right THEN FAdd(b.sc, lam) ELSE b.sc
        sw == IF right THEN b.sw ELSE FAdd(b.sw, lam)
        eps == Share(sw, sc)
    IN IF p.kind \in {"boost", "rus"} THEN
         [b |-> [b EXCEPT !.sc = sc, !.sw = sw, !.eps = eps],
          lam |-> IF right THEN (IF p.kind = "boost" /\ FEq(eps, 0) THEN lam ELSE FDiv(lam, FMul(2, FSub(1, eps)))) ELSE FDiv(lam, FMul(2, eps))]
       ELSE IF p.kind = "adac2" THEN
         LET cost == IF y = 1 THEN p.cp ELSE p.cn
             x == FMul(cost, lam)
             c == CASE right /\ y = 1 -> [b EXCEPT !.tp = FAdd(@, x)] [] right /\ y # 1 -> [b EXCEPT !.tn = FAdd(@, x)]
                    [] ~right /\ y = 1 -> [b EXCEPT !.fn = FAdd(@, x)] [] ~right /\ y # 1 -> [b EXCEPT !.fp = FAdd(@, x)]
             wacc == FDiv(FAdd(c.tp, c.tn), c.sum)
             werr == FDiv(FAdd(c.fp, c.fn), c.sum)
         IN [b |-> [c EXCEPT !.wacc = wacc, !.werr = werr], lam |-> FDiv(x, FMul(2, IF right THEN wacc ELSE werr))]
       ELSE LET c == IF right THEN b ELSE IF y = 1 THEN [b EXCEPT !.fp = FAdd(@, FMul(p.cp, lam)), !.sw = FAdd(@, lam)]
                                     ELSE [b EXCEPT !.fn = FAdd(@, FMul(p.cp, lam)), !.sw = FAdd(@, lam)]
                e == FDiv(c.sw, c.sum)
                werr == FDiv(FAdd(c.fp, c.fn), c.sum)
            IN [b |-> [c EXCEPT !.eps = e, !.werr = werr],
                lam |-> IF right THEN (IF FEq(FAdd(e, werr), 0) \/ FEq(e, 1) THEN lam ELSE FDiv(e, FMul(FSub(1, e), FAdd(e, werr))))
                        ELSE FDiv(FMul(IF y = 1 THEN p.cp ELSE p.cn, lam), FAdd(e, werr))]
LogOdds(e) == LET x == FMax(e, Tiny) IN FLn(FDiv(FSub(1, x), x))
Weight(p, b) ==
    CASE p.kind \in {"boost", "rus"} -> IF FEq(b.sc, 0) THEN 0 ELSE LogOdds(b.eps)
      [] p.kind = "csb2" -> IF FEq(b.sum, 0) \/ FEq(b.eps, 1) THEN 0 ELSE LogOdds(b.eps)
      [] p.kind = "adac2" -> IF FEq(b.wacc, 0) THEN 0 ELSE FLn(FDiv(b.wacc, FMax(b.werr, FMul(b.wacc, Tiny))))
      [] OTHER -> 1

(* ------------------------- change detection ------------------------- *)
Bit(p, said, y) == IF (said = y) = (p.watch = "acc") THEN 1 ELSE 0
RECURSIVE AddAll(_, _, _)
AddAll(p, ad, bits) == IF bits = <<>> THEN ad ELSE AddAll(p, Add(p.ad, ad, bits[1]), Tail(bits))
(* the member's detector gets the bits and is asked once *)
Watch(p, ad, bits) ==
    LET a1 == AddAll(p, ad, bits)
        a2 == Detect(p.ad, a1, 0)
    IN [ad |-> Force(a2), up |-> a2.width < a1.width /\ FGt(Estimation(a2), Estimation(ad)),
        loose |-> Checks(p.ad, a1) /\ HasCut(p.ad, a1) = "maybe"]
(* the member whose detector estimates most; 0 when none estimates more than 0 *)
Most(m) == LET F[j \in 0..Len(m)] == IF j = 0 THEN <<0, 0>> ELSE LET e == Estimation(m[j].ad) IN IF FGt(e, F[j - 1][2]) THEN <<j, e>> ELSE F[j - 1]
           IN F[Len(m)][1]
Settle(p, s, up) == LET j == IF up THEN Most(s.m) ELSE 0 IN
    IF j = 0 THEN s ELSE [s EXCEPT !.m[j] = [@ EXCEPT !.cnt = Cnt0(p), !.any = FALSE, !.ad = AInit], !.resets = Append(@, j)]

(* ------------------------- a row, member by member ------------------------- *)
(* r: code, y, w (and syn: the synthetic rows made from it); ks: how often each member was taught it *)
RECURSIVE TeachSyn(_, _, _, _)
TeachSyn(p, mem, sy, w) == IF sy = <<>> THEN mem ELSE TeachSyn(p, Teach(p, mem, sy[1], 1, w), Tail(sy), w)
RECURSIVE Members(_, _, _, _, _)
Members(p, a, r, ks, i) ==
    IF i > p.n THEN a
    ELSE LET s0 == a.s
             y == r.y
             pos == p.kind = "rus" /\ y = 1
             neg == p.kind = "rus" /\ y # 1
             b0 == [s0.m[i].b EXCEPT !.sum = IF p.kind \in {"adac2", "csb2"} THEN FAdd(@, a.lam) ELSE @,
                                     !.pos = IF pos THEN FAdd(@, a.lam) ELSE @, !.neg = IF neg THEN FAdd(@, a.lam) ELSE @]
             s1 == [s0 EXCEPT !.npos = IF pos THEN @ + 1 ELSE @, !.nneg = IF neg THEN @ + 1 ELSE @, !.m[i].b = b0]
             k == ks[i]
             law == Law(p, s1, i, a.lam, r.code, y)
             tgt == Target(p, s1.m[i], y)
             sy == IF p.kind = "smote" THEN r.syn[i] ELSE <<>>             \* codes of the synthetic rows it was taught
             synlaw == Poisson(IF y = 1 THEN FMul(FSub(1, FDiv(i, p.n)), p.rate) ELSE 0)
             m1 == TeachSyn(p, Teach(p, s1.m[i], r.code, IF tgt < 0 THEN 0 ELSE tgt, k * r.w), sy, r.w)
             said == Label(p, m1, r.code)
             bo == IF Boosts(p) /\ (k > 0 \/ p.kind = "rus") THEN Boost(p, b0, a.lam, said, y) ELSE [b |-> b0, lam |-> a.lam]
             wa == IF p.watch = "none" THEN [ad |-> m1.ad, up |-> FALSE, loose |-> FALSE] ELSE Watch(p, m1.ad, <<Bit(p, said, tgt)>>)
             m2 == Force([m1 EXCEPT !.b = bo.b, !.ad = wa.ad, !.dv = Off(law, k)])
             bad == IF a.bad # "" THEN a.bad ELSE IF Impossible(law, k) \/ (r.stat /\ p.kind = "smote" /\ Impossible(synlaw, Len(sy))) THEN "a member is taught a row a number of times its law rules out" ELSE ""
         IN Members(p, [s |-> [s1 EXCEPT !.m[i] = m2, !.dev = IF r.stat THEN Force(IF p.kind = "smote" THEN Collect(Collect(@, law, k, a.prev, s0.m[i].dv), synlaw, Len(sy), Off(law, k), <<0, 0>>) ELSE Collect(@, law, k, a.prev, s0.m[i].dv)) ELSE @, !.draws = IF r.stat THEN @ + 1 ELSE @,
                                         !.loose = @ \/ wa.loose \/ (tgt < 0 /\ p.watch # "none")],
                        lam |-> bo.lam, up |-> a.up \/ wa.up, prev |-> Off(law, k), bad |-> bad], r, ks, i + 1)
Row(p, s, r, ks) ==
    LET a == Members(p, [s |-> s, lam |-> 1, up |-> FALSE, prev |-> <<0, 0>>, bad |-> ""], r, ks, 1)
    IN [s |-> [Settle(p, a.s, a.up) EXCEPT !.t = @ + 1], bad |-> a.bad]

(* ------------------------- a call at once (OzaBaggingADWIN) ------------------------- *)
(* every member is taught the whole batch k times; then its errors on the batch are watched *)
RECURSIVE TeachAll(_, _, _, _)
TeachAll(p, mem, rs, k) == IF rs = <<>> THEN mem ELSE TeachAll(p, Teach(p, mem, rs[1].code, rs[1].y, k * rs[1].w), Tail(rs), k)
RECURSIVE CallMembers(_, _, _, _, _)
CallMembers(p, a, rs, ks, i) ==
    IF i > p.n THEN a
    ELSE LET law == Poisson(1)
             m1 == TeachAll(p, a.s.m[i], rs, ks[i])
             wa == Watch(p, m1.ad, [j \in 1..Len(rs) |-> Bit(p, Label(p, m1, rs[j].code), rs[j].y)])
             m2 == Force([m1 EXCEPT !.ad = wa.ad, !.dv = Off(law, ks[i])])
         IN CallMembers(p, [s |-> [a.s EXCEPT !.m[i] = m2, !.dev = Force(Collect(@, law, ks[i], a.prev, a.s.m[i].dv)), !.draws = @ + 1, !.loose = @ \/ wa.loose],
                            up |-> a.up \/ wa.up, prev |-> Off(law, ks[i])], rs, ks, i + 1)
Call(p, s, rs, ks) == LET a == CallMembers(p, [s |-> s, up |-> FALSE, prev |-> <<0, 0>>], rs, ks, 1) IN [Settle(p, a.s, a.up) EXCEPT !.t = @ + Len(rs)]

(* ------------------------- answers ------------------------- *)
(* the members' probabilities, weighted, added up and normalised (when the total is positive) *)
Total(p, s, code) == [l \in 1..p.K |-> FSum([j \in 1..p.n |-> FMul(Weight(p, s.m[j].b), Votes(p, s.m[j], code)[l])])]
Answer(p, s, code) == LET v == Force(Total(p, s, code))
                          t == FSum(v)
                      IN [l \in 1..p.K |-> IF FGt(t, 0) THEN FDiv(v[l], t) ELSE v[l]]
(* output codes: a member votes for every class that has the code it predicts (1 only if its count for 1 is larger) *)
CodeVote(mem, code) == IF mem.cnt[code + 1][2] > mem.cnt[code + 1][1] THEN 1 ELSE 0
CodeAnswer(p, s, code) == LET v == [l \in 1..p.K |-> FSum([j \in 1..p.n |-> IF s.m[j].code[l] = CodeVote(s.m[j], code) THEN 1 ELSE 0])]
                              t == FSum(v)
                          IN [l \in 1..p.K |-> IF FGt(t, 0) THEN FDiv(v[l], t) ELSE v[l]]
CodesKnown(p, s) == \A j \in 1..p.n : \A l \in 1..p.K : s.m[j].code[l] >= 0
Balanced(code) == LET ones == LET F[l \in 0..Len(code)] == IF l = 0 THEN 0 ELSE F[l - 1] + code[l] IN F[Len(code)]
                      d == 2 * ones - Len(code) IN d * d <= Len(code) % 2
=============================================================================
