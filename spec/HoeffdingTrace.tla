---------------------------- MODULE HoeffdingTrace ----------------------------
(* cfg: p, with p.nom a sequence of 1-based nominal attributes *)
EXTENDS Hoeffding, TLC
VARIABLES tr, i, st
Param(c) == [c.p EXCEPT !.nom = {c.p.nom[j] : j \in 1..Len(c.p.nom)}]
XStart(c) == << Tree0 >>        \* the trees that may be there
RECURSIVE Rows(_, _, _, _)
Rows(p, S, e, k) == IF k > Len(e.X) THEN S ELSE Rows(p, LET F[q \in 0..Len(S)] == IF q = 0 THEN <<>> ELSE F[q - 1] \o Learn(p, S[q], e.X[k], e.y[k], e.w[k]) IN Force(F[Len(S)]), e, k + 1)
PathSame(a, b) == Len(a) = Len(b) /\ \A j \in 1..Len(a) : a[j][1] = b[j][1] /\ a[j][2] = b[j][2] /\ FClose(a[j][3], b[j][3], "1e-07")
DistSame(cs, ws, n) == {cs[j] : j \in 1..Len(cs)} = DOMAIN n /\ \A j \in 1..Len(cs) : FClose(ws[j], n[cs[j]], "1e-07")
RuleSame(r, t) == PathSame(r.path, t.path) /\ DistSame(r.cs, r.ws, t.n) /\ (IF DOMAIN t.n = {} THEN r.class = 0 ELSE Shaky(t.n) \/ r.class = ArgMax(t.n))
RulesSame(a, b) == Len(a) = Len(b) /\ \A j \in 1..Len(a) : RuleSame(a[j], b[j])
Obs(p, s, e) ==
    CASE e.nodes # (IF s.none THEN 0 ELSE Leaves(s.root) + Splits(s.root)) \/ e.leaves # (IF s.none THEN 0 ELSE Leaves(s.root))
            -> "the tree has another number of nodes than the stream gives"
      [] e.depth # Depth(s.root) -> "the tree has another depth"
      [] e.active # (IF s.none THEN 0 ELSE Leaves(s.root) - Off(s.root)) -> "another number of active leaves"
      [] ~s.none /\ e.rules # <<>> /\ ~RulesSame(e.rules, Rules(s.root))
            -> "the rules of the tree are not those of the splits and class weights the stream gives"
      [] ~s.none /\ e.descr # <<>> /\ ~RulesSame(e.descr, Rules(s.root))
            -> "the description of the tree is not that of the splits and class weights the stream gives"
      [] \E k \in 1..Len(e.X) : LET vs == IF s.none THEN {Empty} ELSE Votes(p, s.root, e.X[k]) IN \A v \in vs : ~SameRow(e.proba[k], Norm(v))
            -> "the class probabilities are not those of the leaf the row falls in"
      [] \E k \in 1..Len(e.X) : LET vs == IF s.none THEN {Empty} ELSE Votes(p, s.root, e.X[k]) IN \A v \in vs : ~SamePred(e.pred[k], Norm(v))
            -> "the prediction is not the most probable class"
      [] OTHER -> ""
XStep(c, S, e) ==
    CASE e.op = "fit" -> [ok |-> IF e.raised # "" THEN "training raised " \o e.raised ELSE "", st |-> Rows(Param(c), S, e, 1)]
      [] e.op = "ask" -> LET good == SelectSeq(S, LAMBDA s : Obs(Param(c), s, e) = "") IN
                         [ok |-> IF good # <<>> THEN "" ELSE Obs(Param(c), S[1], e), st |-> good]
      [] e.op = "reset" -> [ok |-> "", st |-> << Tree0 >>]
XFinish(c, S) == ""
INSTANCE TraceCheck WITH Start <- XStart, Step <- XStep, Finish <- XFinish
=============================================================================
