----------------------------- MODULE RuleSetTrace -----------------------------
(* cfg: p, with p.nom a sequence of 1-based nominal attributes *)
EXTENDS RuleSet, TLC
VARIABLES tr, i, st
Param(c) == [c.p EXCEPT !.nom = {c.p.nom[j] : j \in 1..Len(c.p.nom)}]
RStart(c) == << Rules0 >>
RECURSIVE Rows(_, _, _, _)
Rows(p, S, e, k) == IF k > Len(e.X) THEN S ELSE Rows(p, LET F[q \in 0..Len(S)] == IF q = 0 THEN <<>> ELSE F[q - 1] \o RLearn(p, S[q], e.X[k], e.y[k], e.w[k]) IN Force(F[Len(S)]), e, k + 1)
PathSame(a, b, eps) == Len(a) = Len(b) /\ \A j \in 1..Len(a) : a[j][1] = b[j][1] /\ a[j][2] = b[j][2] /\ FLe(FAbs(FSub(a[j][3], b[j][3])), FAdd(eps, FMul("1e-09", FAbs(b[j][3]))))
DistSame(cs, ws, n) == {cs[j] : j \in 1..Len(cs)} = DOMAIN n /\ \A j \in 1..Len(cs) : FLe(FAbs(FSub(ws[j], n[cs[j]])), FAdd("1e-06", FMul("1e-07", FAbs(n[cs[j]]))))
RuleSame(r, t, eps) == PathSame(r.path, t.pred, eps) /\ DistSame(r.cs, r.ws, t.n) /\ (DOMAIN t.n = {} \/ Shaky(t.n) \/ r.class = ArgMax(t.n))
RulesSame(a, b, eps) == Len(a) = Len(b) /\ \A j \in 1..Len(a) : RuleSame(a[j], b[j], eps)
Obs(p, s, e) ==
    CASE e.count # Len(s.rules) -> "another number of rules than the stream gives"
      [] ~RulesSame(e.rules, s.rules, "1e-09") -> "the rules are not those of the expansions and class weights the stream gives"
      [] e.descr # <<>> /\ ~RulesSame(e.descr, Append(s.rules, s.def), "0.0052") -> "the description is not that of the rules"
      [] \E k \in 1..Len(e.X) : LET vs == Ask(p, s, e.X[k]) IN \A v \in vs : ~SameRow(e.proba[k], Norm(v))
            -> "the class probabilities are not those of the rules that cover the row"
      [] \E k \in 1..Len(e.X) : LET vs == Ask(p, s, e.X[k]) IN \A v \in vs : ~SamePred(e.pred[k], Norm(v))
            -> "the prediction is not the most probable class"
      [] OTHER -> ""
RStep(c, S, e) ==
    CASE e.op = "fit" -> [ok |-> IF e.raised # "" THEN "training raised " \o e.raised ELSE "", st |-> Rows(Param(c), S, e, 1)]
      [] e.op = "ask" -> IF e.raised # "" THEN [ok |-> "asking raised " \o e.raised, st |-> S] ELSE
                         LET good == SelectSeq(S, LAMBDA s : Obs(Param(c), s, e) = "") IN
                         [ok |-> IF good # <<>> THEN "" ELSE Obs(Param(c), S[1], e), st |-> good]
      [] e.op = "reset" -> [ok |-> "", st |-> << Rules0 >>]
RFinish(c, S) == ""
INSTANCE TraceCheck WITH Start <- RStart, Step <- RStep, Finish <- RFinish
=============================================================================
