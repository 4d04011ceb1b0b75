------------------------- MODULE FiniteStreamTrace -------------------------
(***************************************************************************)
(* Validation of recorded FiniteStream runs.  cfg.rows are the rows as the *)
(* user supplied them (all columns); cfg.tlo is the 1-based first target   *)
(* column and cfg.nt the number of targets; optional per-row side columns  *)
(* (time, delay, weight) are in cfg.side.  Every event carries, after the  *)
(* operation, has_more, n_remaining and last_sample as observed.           *)
(***************************************************************************)
EXTENDS FiniteStream, Real64, SequencesExt, FiniteSets, FiniteSetsExt
VARIABLES tr, i, st

XOf(c, r) == LET row == c.rows[r] IN
             [k \in 1..(Len(row) - c.nt) |-> IF k < c.tlo THEN row[k] ELSE row[k + c.nt]]
YOf(c, r) == LET row == c.rows[r] IN
             IF c.nt = 1 THEN row[c.tlo] ELSE [k \in 1..c.nt |-> row[c.tlo + k - 1]]
SideOf(c, r) == [k \in 1..Len(c.side) |-> c.side[k][r]]

EmptyBatch(v) == Eq(v, "None") \/ Eq(v, <<>>)
(* an observed batch (x, y, side) against the rows (lo, hi] of the stream *)
BatchIs(c, s, x, y, side) ==
    IF s.hi = s.lo THEN EmptyBatch(x) /\ EmptyBatch(y)
    ELSE LET n == s.hi - s.lo IN
         /\ Eq(x, [k \in 1..n |-> XOf(c, s.lo + k)])
         /\ Eq(y, [k \in 1..n |-> YOf(c, s.lo + k)])
         /\ Eq(side, [k \in 1..Len(c.side) |-> [j \in 1..n |-> c.side[k][s.lo + j]]])

Labels(c, k) == {c.rows[r][k] : r \in 1..Len(c.rows)}

FSStart(c) == SInit(Len(c.rows))
Post(c, s, e) ==
    IF ~Eq(e.has, HasMore(s)) THEN "has_more_samples disagrees with the rows left"
    ELSE IF ~Eq(e.rem, Remaining(s)) THEN "n_remaining_samples is not the number of rows left"
    ELSE IF s.fresh /\ ~(\A k \in 1..Len(e.last) : Eq(e.last[k], "None"))
         THEN "last_sample after a restart is not empty"
    ELSE IF ~s.fresh /\ ~BatchIs(c, s, e.last[1], e.last[2], SubSeq(e.last, 3, Len(e.last)))
         THEN "last_sample is not the last delivered batch"
    ELSE ""
FSStep(c, s, e) ==
    CASE e.op = "next" ->
           LET t == SNext(s, e.b) IN
           [ok |-> IF ~BatchIs(c, t, e.x, e.y, e.side)
                   THEN "next_sample did not deliver exactly the next rows in order"
                   ELSE Post(c, t, e),
            st |-> t]
      [] e.op = "restart" -> LET t == SRestart(s) IN [ok |-> Post(c, t, e), st |-> t]
      [] e.op = "peek" -> [ok |-> Post(c, s, e), st |-> s]
      [] e.op = "meta" ->
           [ok |-> IF ~Eq(e.n_features, Len(c.rows[1]) - c.nt) THEN "n_features"
                   ELSE IF ~Eq(e.n_targets, c.nt) THEN "n_targets"
                   ELSE IF c.classif /\ c.nt = 1 /\
                           ~Eq(e.target_values, SetToSortSeq(Labels(c, c.tlo), LAMBDA a, b : a < b))
                        THEN "target_values is not the sorted set of labels in the data"
                   ELSE IF c.classif /\ c.nt > 1 /\
                           ~Eq(e.target_values, [k \in 1..c.nt |->
                                 SetToSortSeq(Labels(c, c.tlo + k - 1), LAMBDA a, b : a < b)])
                        THEN "target_values is not the sorted set of labels per target"
                   ELSE IF c.classif /\ ~Eq(e.n_classes,
                           Cardinality(UNION {Labels(c, c.tlo + k - 1) : k \in 1..c.nt}))
                        THEN "n_classes is not the number of distinct labels"
                   ELSE IF ~Eq(e.names, c.names) THEN "feature/target names do not follow the columns"
                   ELSE "",
            st |-> s]
FSFinish(c, s) == ""

INSTANCE TraceCheck WITH Start <- FSStart, Step <- FSStep, Finish <- FSFinish
=============================================================================
