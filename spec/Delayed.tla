------------------------------- MODULE Delayed -------------------------------
(***************************************************************************)
(* Prequential evaluation with delayed labels.  Row r arrives at           *)
(* c.arr[r] and its label becomes available at c.avail[r].  When a batch   *)
(* arrives, the rows whose labels are available by the arrival of its last *)
(* row are handed to the models (in order of availability, ties in arrival *)
(* order) before the batch is tested; what is still waiting when reading   *)
(* ends is handed over in batches.                                         *)
(* State: q = rows waiting, due = rows being handed over, todo = models    *)
(* still to be trained on due, cur = current batch, untested = models      *)
(* still to be tested on it, used = rows accounted for.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Models(c) == 1..c.models
Budget(c) == IF c.rows > c.limit THEN c.limit ELSE c.rows
Deliver(c, got, b) == LET n == IF got + b <= c.rows THEN b ELSE c.rows - got IN [k \in 1..n |-> got + k]
DInit(c) == [got |-> 0, used |-> 0, q |-> <<>>, due |-> <<>>, todo |-> {}, cur |-> <<>>, untested |-> {},
             mode |-> IF c.pre > 0 THEN "begin" ELSE "run", ever |-> {}]
(* insert row r behind every waiting row available no later *)
RECURSIVE Ins(_, _, _)
Ins(c, q, r) == IF q = <<>> THEN <<r>>
                ELSE IF c.avail[q[1]] <= c.avail[r] THEN <<q[1]>> \o Ins(c, Tail(q), r)
                ELSE <<r>> \o q
RECURSIVE InsAll(_, _, _)
InsAll(c, q, rs) == IF rs = <<>> THEN q ELSE InsAll(c, Ins(c, q, rs[1]), Tail(rs))
RECURSIVE NAvail(_, _, _)
NAvail(c, q, t) == IF q = <<>> \/ c.avail[q[1]] > t THEN 0 ELSE 1 + NAvail(c, Tail(q), t)
Settled(s) == s.todo = {} /\ s.untested = {}
More(c, s) == s.used < Budget(c) /\ s.got < c.rows
ReadWhy(c, s, b) ==
    IF ~Settled(s) THEN "a batch is read before every model has processed the last one"
    ELSE IF s.mode = "begin" THEN IF b = c.pre THEN "" ELSE "pre-training size"
    ELSE IF s.mode = "drain" \/ ~More(c, s) THEN "samples are read beyond max_samples or the end of the stream"
    ELSE IF b # c.batch THEN "batch size" ELSE ""
Read(c, s, b) ==
    LET ids == Deliver(c, s.got, b) IN
    IF s.mode = "begin" THEN [s EXCEPT !.got = @ + Len(ids), !.used = @ + b, !.due = ids, !.todo = Models(c), !.mode = "run"]
    ELSE LET n == NAvail(c, s.q, c.arr[ids[Len(ids)]]) IN
         [s EXCEPT !.got = @ + Len(ids), !.cur = ids, !.untested = Models(c),
                   !.due = SubSeq(s.q, 1, n), !.todo = IF n = 0 THEN {} ELSE Models(c), !.used = @ + n,
                   !.q = InsAll(c, SubSeq(s.q, n + 1, Len(s.q)), ids)]
(* the next handful of waiting rows once reading is over *)
DrainStep(c, s) == LET n == IF Len(s.q) < c.batch THEN Len(s.q) ELSE c.batch IN
    [s EXCEPT !.mode = "drain", !.due = SubSeq(s.q, 1, n), !.q = SubSeq(s.q, n + 1, Len(s.q)),
              !.todo = Models(c), !.used = @ + n]
MayDrain(c, s) == Settled(s) /\ s.mode # "begin" /\ ~More(c, s) /\ s.q # <<>>
Handing(c, s) == IF s.todo = {} /\ MayDrain(c, s) THEN DrainStep(c, s) ELSE s
TrainWhy(c, s0, m, ids) ==
    LET s == Handing(c, s0) IN
    IF s.todo = {} THEN "training on rows whose labels are not available"
    ELSE IF m \notin s.todo THEN "a model is trained twice on the same rows"
    ELSE IF ids # s.due THEN "a model is not trained on exactly the rows whose labels became available, in order"
    ELSE ""
Train(c, s0, m) == LET s == Handing(c, s0) IN [s EXCEPT !.todo = @ \ {m}, !.ever = @ \union {m}]
TestWhy(c, s, m, ids) ==
    IF m \notin s.untested THEN "a model is tested when no new batch arrived"
    ELSE IF m \in s.todo THEN "a model is tested before it was trained on the available rows"
    ELSE IF ids # s.cur THEN "a model is not tested on exactly the new batch" ELSE ""
Test(c, s, m) == [s EXCEPT !.untested = @ \ {m}]
DoneWhy(c, s) ==
    IF s.mode = "begin" THEN "no pre-training"
    ELSE IF ~Settled(s) THEN "the evaluation ends with rows not processed by every model"
    ELSE IF More(c, s) THEN "the evaluation stops before max_samples or the end of the stream"
    ELSE IF s.q # <<>> THEN "the evaluation ends with rows still waiting for their labels" ELSE ""
=============================================================================
