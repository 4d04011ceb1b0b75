----------------------------- MODULE SamKnnTrace -----------------------------
EXTENDS SamKnn, TLC
VARIABLES tr, i, st
Mem(X, Y) == [j \in 1..Len(Y) |-> [x |-> X[j], y |-> Y[j]]]
SameMem(a, b) == Len(a) = Len(b) /\ \A j \in 1..Len(a) : a[j].y = b[j].y /\ FCloseSeq(a[j].x, b[j].x, "1e-9")
Lo(q, f) == CHOOSE v \in {q[j].x[f] : j \in 1..Len(q)} : \A j \in 1..Len(q) : FLe(v, q[j].x[f])
Hi(q, f) == CHOOSE v \in {q[j].x[f] : j \in 1..Len(q)} : \A j \in 1..Len(q) : FGe(v, q[j].x[f])
Inside(q, z) == \A f \in 1..Len(z) : FGe(z[f], FSub(Lo(q, f), "1e-9")) /\ FLe(z[f], FAdd(Hi(q, f), "1e-9"))
(* centres cs of the samples q: every centre is (up to the clustering's tolerance) the mean of the samples nearest to it *)
Nearest(cs, x) == FArgSort(Dists(cs, x))[1]
MeanOf(q, f) == FDiv(FSum([j \in 1..Len(q) |-> q[j].x[f]]), Len(q))
Spread(q, f) == FSub(Hi(q, f), Lo(q, f))
Centres(q, cs) == \A a \in 1..Len(cs) :
    LET near == SelectSeq(q, LAMBDA z : Nearest(cs, z.x) = a) IN
    near # <<>> => \A f \in 1..Len(cs[a].x) : FLe(FAbs(FSub(MeanOf(near, f), cs[a].x[f])), FAdd("1e-9", FMul("0.02", Spread(q, f))))
(* may the long-term memory q, compressed and then cleaned around a sample of class y, have become m? *)
CompressOK(c, q, m, y) ==
    IF Labels(m) \ Labels(q) # {} THEN "compression invents classes"
    ELSE IF \E l \in Labels(q) : LET n == Len(OfClass(m, l)) IN n > Half(q, l) \/ n < Half(q, l) - (IF l = y THEN 0 ELSE c.k)
         THEN "compression does not halve the samples of each class"
    ELSE IF \E j \in 1..Len(m) : ~Inside(OfClass(q, m[j].y), m[j].x) THEN "compression leaves the region of its class"
    ELSE IF \E l \in Labels(m) : Len(OfClass(m, l)) = Half(q, l) /\ ~Centres(OfClass(q, l), OfClass(m, l)) THEN "the compressed samples are not cluster centres"
    ELSE ""
Fit1(c, s, e) ==
    LET ostm == Mem(e.SX, e.SY)
        oltm == Mem(e.LX, e.LY)
        t == Join(c, s, e.x, e.y)
    IN IF ~Over(c, t) THEN
          LET r == Settle(c, t).st IN
          [ok |-> IF ~SameMem(r.stm, ostm) THEN "the short-term memory is not the newest samples the size adaption keeps"
                  ELSE IF ~SameMem(r.ltm, oltm) THEN "the long-term memory is not the cleaned older samples" ELSE "",
           st |-> r]
       ELSE LET q == ToCompress(c, t)
                u == Compressed(c, t, <<>>)
                r == Shrink(c, u)
                m == SubSeq(oltm, 1, Len(oltm) - Len(r.add))
                w == CompressOK(c, q, m, e.y)
            IN [ok |-> IF ~SameMem(r.st.stm, ostm) THEN "the short-term memory is not the newest samples the size adaption keeps"
                       ELSE IF Len(oltm) < Len(r.add) \/ ~SameMem(r.add, From(oltm, Len(m) + 1)) THEN "the long-term memory is not the cleaned older samples"
                       ELSE w,
                st |-> [r.st EXCEPT !.ltm = oltm]]
SStep(c, s, e) ==
    CASE e.op = "fit" -> IF Len(e.SX) # Len(e.SY) \/ Len(e.LX) # Len(e.LY) THEN [ok |-> "samples and labels do not correspond", st |-> s]
                         ELSE IF Len(e.SY) + Len(e.LY) > c.max THEN [ok |-> "the memories exceed the maximum size", st |-> s]
                         ELSE Fit1(c, s, e)
      [] e.op = "quiet" -> LET t == Join(c, s, e.x, e.y) IN                         \* a sample of a larger batch: only seen if nothing is compressed
                           [ok |-> "", st |-> Settle(c, t).st]
      [] e.op = "query" -> [ok |-> IF \E j \in 1..Len(e.X) : ~Eq(e.pred[j], Predict(c, s, e.X[j])) THEN "the prediction is not that of the memory with the best record" ELSE "",
                            st |-> s]
SFinish(c, s) == ""
SStart(c) == SInit
INSTANCE TraceCheck WITH Start <- SStart, Step <- SStep, Finish <- SFinish
=============================================================================
