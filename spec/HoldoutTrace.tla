---------------------------- MODULE HoldoutTrace ----------------------------
EXTENDS Holdout, Real64
VARIABLES tr, i, st
Ys(c, ids) == [k \in 1..Len(ids) |-> c.y[ids[k]]]
First(a, b) == IF a # "" THEN a ELSE b
TStart(c) == HInit(c)
TStep(c, s, e) ==
    CASE e.op = "next" -> LET w == ReadWhy(c, s, e.b) IN [ok |-> w, st |-> IF w = "" THEN Read(c, s, e.b) ELSE s]
      [] e.op = "predict" -> [ok |-> TestWhy(c, s, e.m, e.ids), st |-> Test(c, s, e.m)]
      [] e.op = "fit" ->
           [ok |-> First(First(TrainWhy(c, s, e.m, e.ids),
                         IF ~Eq(e.y, Ys(c, e.ids)) THEN "training labels are not those of the rows" ELSE ""),
                         IF e.m \notin s.ever /\ c.classes # <<>> /\ ~Eq(e.classes, c.classes)
                         THEN "the first training of a classifier does not announce the classes of the stream" ELSE ""),
            st |-> Train(c, s, e.m)]
      [] e.op = "restart" -> [ok |-> First(DoneWhy(c, s), IF ~c.restart THEN "the stream is restarted against the configuration" ELSE ""),
                              st |-> s]
      [] e.op = "end" -> [ok |-> First(DoneWhy(c, s),
                             IF c.rows # -1 /\ ~Eq(e.rem, IF c.restart THEN c.total ELSE c.rows - s.got)
                             THEN "the stream is not left restarted (or where the evaluation stopped)"
                             ELSE IF ~Eq(e.same, TRUE) THEN "evaluate does not return the evaluated models" ELSE ""),
                          st |-> s]
TFinish(c, s) == DoneWhy(c, s)
INSTANCE TraceCheck WITH Start <- TStart, Step <- TStep, Finish <- TFinish
=============================================================================
