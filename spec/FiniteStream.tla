---------------------------- MODULE FiniteStream ----------------------------
(***************************************************************************)
(* A stream over a finite data set (DataStream, FileStream,                *)
(* TemporalDataStream, and the generators that materialise n_samples       *)
(* rows).  The stream is a cursor over the rows: next(b) delivers the next  *)
(* min(b, remaining) rows, and nothing else moves the cursor except        *)
(* restart.  A row is identified by its position.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences

Min2(a, b) == IF a < b THEN a ELSE b

NoBatch == <<>>

(* pos: rows delivered since the last (re)start; cur: interval of the last batch *)
SInit(n) == [n |-> n, pos |-> 0, lo |-> 0, hi |-> 0, fresh |-> TRUE]

Remaining(s) == s.n - s.pos
HasMore(s)   == Remaining(s) > 0

(* the batch delivered by next(b), as an interval (lo, hi] of row positions *)
SNext(s, b) ==
    LET k == Min2(b, Remaining(s)) IN
    [s EXCEPT !.pos = s.pos + k, !.lo = s.pos, !.hi = s.pos + k, !.fresh = FALSE]

SRestart(s) == SInit(s.n)

BatchRows(s) == [k \in 1..(s.hi - s.lo) |-> s.lo + k]
=============================================================================
