----------------------------- MODULE Prequential -----------------------------
(***************************************************************************)
(* Prequential (test-then-train) evaluation of several models on one       *)
(* stream.  Configuration c: models (count), batch, pre (pretraining),     *)
(* limit (max_samples), rows (rows left in the stream, -1 endless).        *)
(* State s: got = rows read, count = rows accounted for, cur = rows of the *)
(* current batch, mode, tested / trained = models done with that batch.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Models(c) == 1..c.models
Budget(c) == IF c.rows = -1 \/ c.rows > c.limit THEN c.limit ELSE c.rows
PInit(c) == [got |-> 0, count |-> 0, cur |-> <<>>, mode |-> "idle", tested |-> {}, trained |-> {}, everTrained |-> {}]
(* rows the stream delivers on a request for b *)
Deliver(c, got, b) == LET n == IF c.rows = -1 \/ got + b <= c.rows THEN b ELSE c.rows - got
                      IN [k \in 1..n |-> got + k]
Exhausted(c, s) == c.rows # -1 /\ s.got >= c.rows
Settled(c, s) == s.mode = "idle" \/ (s.trained = Models(c) /\ (s.mode = "pre" \/ s.tested = Models(c)))
More(c, s) == s.count < Budget(c) /\ ~Exhausted(c, s)

(* reasons for an action not to be allowed; "" when it is *)
ReadWhy(c, s, b) ==
    IF ~Settled(c, s) THEN "a new batch is read before every model was tested and trained on the last one"
    ELSE IF s.mode = "idle" /\ c.pre > 0 THEN IF b = c.pre THEN "" ELSE "pre-training size"
    ELSE IF ~More(c, s) THEN "samples are read beyond max_samples or the end of the stream"
    ELSE IF b # c.batch THEN "batch size" ELSE ""
Read(c, s, b) ==
    LET ids == Deliver(c, s.got, b) IN
    [s EXCEPT !.got = @ + Len(ids), !.count = @ + b, !.cur = ids, !.tested = {}, !.trained = {},
              !.mode = IF s.mode = "idle" /\ c.pre > 0 THEN "pre" ELSE "eval"]
TestWhy(c, s, m, ids) ==
    IF s.mode # "eval" THEN "a model is tested outside the evaluation phase"
    ELSE IF ids # s.cur THEN "a model is not tested on exactly the current batch"
    ELSE IF m \in s.trained THEN "a model is tested on a batch it has already been trained on"
    ELSE IF m \in s.tested THEN "a model is tested twice on a batch" ELSE ""
Test(c, s, m) == [s EXCEPT !.tested = @ \union {m}]
TrainWhy(c, s, m, ids) ==
    IF s.mode = "idle" THEN "training before any sample was read"
    ELSE IF ids # s.cur THEN "a model is not trained on exactly the current batch"
    ELSE IF s.mode = "eval" /\ m \notin s.tested THEN "a model is trained on a batch before being tested on it"
    ELSE IF m \in s.trained THEN "a model is trained twice on a batch" ELSE ""
Train(c, s, m) == [s EXCEPT !.trained = @ \union {m}, !.everTrained = @ \union {m}]
DoneWhy(c, s) ==
    IF ~Settled(c, s) THEN "the evaluation ends with a batch not processed by every model"
    ELSE IF s.mode = "idle" /\ c.pre > 0 THEN "no pre-training"
    ELSE IF More(c, s) THEN "the evaluation stops before max_samples or the end of the stream" ELSE ""
=============================================================================
