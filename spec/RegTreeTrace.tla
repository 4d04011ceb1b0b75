----------------------------- MODULE RegTreeTrace -----------------------------
(* cfg: p, with p.nom a sequence of 1-based nominal attributes *)
EXTENDS RegTree, TLC
VARIABLES tr, i, st
Param(c) == [c.p EXCEPT !.nom = {c.p.nom[j] : j \in 1..Len(c.p.nom)}]
GStart(c) == << Tree0(c.p.k) >>        \* the trees that may be there
RECURSIVE Rows(_, _, _, _)
Rows(p, S, e, k) == IF k > Len(e.X) THEN S ELSE Rows(p, LET F[q \in 0..Len(S)] == IF q = 0 THEN <<>> ELSE F[q - 1] \o Learn(p, S[q], e.X[k], e.y[k], e.w[k]) IN Force(F[Len(S)]), e, k + 1)
PathSame(a, b) == Len(a) = Len(b) /\ \A j \in 1..Len(a) : a[j][1] = b[j][1] /\ a[j][2] = b[j][2] /\ FClose(a[j][3], b[j][3], "1e-07")
Near(a, b) == FLe(FAbs(FSub(a, b)), FAdd("0.0001", FMul("1e-08", FAbs(b))))
NSame(a, b) == IF a = <<>> THEN FEq(b[1], 0) ELSE Near(a[1], b[1]) /\ \A h \in 2..3 : Len(a[h]) = Len(b[h]) /\ \A j \in 1..Len(b[h]) : Near(a[h][j], b[h][j])
TreeSame(a, b) == Len(a) = Len(b) /\ \A j \in 1..Len(a) : PathSame(a[j].path, b[j].path) /\ NSame(a[j].n, b[j].n)
Size(x) == FAdd(1, FAbs(x))
Right(p, s, x, v) ==
    IF s.none THEN \A j \in 1..Len(v) : FEq(v[j], 0)
    ELSE Len(v) = p.k /\ LET a == Value(p, s.g, s.root, x) IN \A j \in 1..p.k : \E h \in 1..Len(a[j]) : FLe(FAbs(FSub(v[j], a[j][h])), FMul("1e-06", Size(v[j])))
Obs(p, s, e) ==
    LET ls == IF s.none THEN <<>> ELSE LeafSeq(s.root) IN
    CASE e.nodes # (IF s.none THEN 0 ELSE Len(ls) + Splits(s.root)) \/ e.leaves # Len(ls) -> "the tree has another number of nodes than the stream gives"
      [] e.depth # Depth(s.root) -> "the tree has another depth"
      [] e.active # Len(ls) -> "another number of active leaves"
      [] ~s.none /\ ~TreeSame(e.descr, ls) -> "the description of the tree is not that of the splits and statistics the stream gives"
      [] Len(e.pred) # Len(e.X) -> "not one prediction per row"
      [] \E k \in 1..Len(e.X) : ~Right(p, s, e.X[k], e.pred[k])
            -> "the prediction is not that of the leaf the row falls in"
      [] OTHER -> ""
GStep(c, S, e) ==
    CASE e.op = "fit" -> [ok |-> IF e.raised # "" THEN "training raised " \o e.raised ELSE "", st |-> Rows(Param(c), S, e, 1)]
      [] e.op = "ask" -> IF e.raised # "" THEN [ok |-> "predicting raised " \o e.raised, st |-> S] ELSE
                         LET good == SelectSeq(S, LAMBDA s : Obs(Param(c), s, e) = "") IN
                         [ok |-> IF good # <<>> THEN "" ELSE Obs(Param(c), S[1], e), st |-> good]
      [] e.op = "reset" -> [ok |-> "", st |-> << Tree0(c.p.k) >>]
GFinish(c, S) == ""
INSTANCE TraceCheck WITH Start <- GStart, Step <- GStep, Finish <- GFinish
=============================================================================
