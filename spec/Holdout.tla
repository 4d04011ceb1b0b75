------------------------------- MODULE Holdout -------------------------------
(***************************************************************************)
(* Holdout evaluation.  Configuration c: models, batch, limit, rows, test  *)
(* (test set size), wait, dynamic.  A static test set is the first c.test  *)
(* rows; a dynamic one is read afresh for every test.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Models(c) == 1..c.models
Budget(c) == IF c.rows = -1 \/ c.rows > c.limit THEN c.limit ELSE c.rows
Deliver(c, got, b) == LET n == IF c.rows = -1 \/ got + b <= c.rows THEN b ELSE c.rows - got
                      IN [k \in 1..n |-> got + k]
HInit(c) == [got |-> 0, count |-> 0, cur |-> <<>>, test |-> <<>>, mode |-> IF c.dynamic THEN "idle" ELSE "begin",
             trained |-> {}, tested |-> {}, tests |-> 0, ever |-> {}]
Exhausted(c, s) == c.rows # -1 /\ s.got >= c.rows
More(c, s) == s.count < Budget(c) /\ ~Exhausted(c, s)
(* is a test due once every model was trained on the current batch? *)
Due(c, s) == \/ s.count >= Budget(c)
             \/ IF c.dynamic THEN s.count >= c.wait * (s.tests + 1) + c.test * s.tests
                ELSE (s.count - c.test) % c.wait = 0
ReadWhy(c, s, b) ==
    IF s.mode = "begin" THEN IF b = c.test THEN "" ELSE "the first rows read are not the test set"
    ELSE IF s.mode = "train" /\ s.trained # Models(c) THEN "a batch is read before every model was trained on the last one"
    ELSE IF s.mode = "train" /\ Due(c, s) THEN
         IF ~c.dynamic THEN "a test was due" ELSE IF b = c.test THEN "" ELSE "dynamic test set size"
    ELSE IF s.mode = "test" /\ s.tested # Models(c) THEN "a batch is read before every model was tested"
    ELSE IF ~More(c, s) THEN "samples are read beyond max_samples or the end of the stream"
    ELSE IF b # c.batch THEN "batch size" ELSE ""
Read(c, s, b) ==
    LET ids == Deliver(c, s.got, b) t == [s EXCEPT !.got = @ + Len(ids)] IN
    IF s.mode = "begin" THEN [t EXCEPT !.mode = "idle", !.test = ids, !.count = @ + c.test]
    ELSE IF s.mode = "train" /\ Due(c, s) THEN
         [t EXCEPT !.mode = "test", !.test = ids, !.count = @ + Len(ids), !.tested = {}]
    ELSE [t EXCEPT !.mode = "train", !.cur = ids, !.trained = {}, !.count = @ + b]
TrainWhy(c, s, m, ids) ==
    IF s.mode # "train" THEN "training outside the training phase"
    ELSE IF ids # s.cur THEN "a model is not trained on exactly the current batch"
    ELSE IF m \in s.trained THEN "a model is trained twice on a batch" ELSE ""
Train(c, s, m) == [s EXCEPT !.trained = @ \union {m}, !.ever = @ \union {m}]
(* with a static test set testing may start as soon as all models are trained *)
TestMode(c, s) == s.mode = "test" \/ (s.mode = "train" /\ ~c.dynamic /\ s.trained = Models(c) /\ Due(c, s))
TestWhy(c, s, m, ids) ==
    IF ~TestMode(c, s) THEN "a test that is not due"
    ELSE IF ids # s.test THEN "a model is not tested on exactly the test set"
    ELSE IF s.mode = "test" /\ m \in s.tested THEN "a model is tested twice" ELSE ""
Test(c, s, m) == LET d == IF s.mode = "test" THEN s.tested ELSE {} IN
                 [s EXCEPT !.mode = "test", !.tested = d \union {m},
                           !.tests = IF d \union {m} = Models(c) THEN @ + 1 ELSE @]
DoneWhy(c, s) ==
    IF s.mode = "begin" THEN "no test set"
    ELSE IF s.mode = "train" /\ (s.trained # Models(c) \/ Due(c, s)) THEN "the evaluation ends before a test that was due"
    ELSE IF s.mode = "test" /\ s.tested # Models(c) THEN "the evaluation ends before every model was tested"
    ELSE IF More(c, s) THEN "the evaluation stops before max_samples or the end of the stream" ELSE ""
=============================================================================
