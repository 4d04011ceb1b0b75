----------------------------- MODULE ReportTrace -----------------------------
(* cfg: method, kind, models, batch, pre, wait, limit, budget, W, L,        *)
(* metrics, tvp (true_vs_predicted requested), res (per model, results).   *)
EXTENDS Report
VARIABLES tr, i, st
Tol == "1.5e-6"
(* expected numbers of a row: per metric, per model, <<mean, current>> *)
Expect(c, s) == [k \in 1..Len(c.metrics) |-> [m \in 1..c.models |->
                   <<Value(c, s.cum[m], c.metrics[k]), Value(c, s.win[m], c.metrics[k])>>]]
LastOf(c, s) == [m \in 1..c.models |-> c.res[m][s.n]]
RStep(c, s, e) ==
    CASE e.op = "read" -> [ok |-> "", st |-> [s EXCEPT !.count = @ + e.b]]
      [] e.op = "results" ->
           LET t == Results(c, s, e.n)
               u == IF DueNow(c, t) THEN [t EXCEPT !.upd = @ + 1,
                         !.due = Append(@, [id |-> IF c.method = "preq" THEN t.count - c.batch ELSE t.count,
                                            v |-> Expect(c, t), last |-> IF t.n = 0 THEN <<>> ELSE LastOf(c, t)])] ELSE t
           IN [ok |-> "", st |-> IF c.method = "delayed" THEN [u EXCEPT !.count = @ + e.n] ELSE u]
      [] e.op = "over" ->        \* an evaluation too short for a periodic report reports once, at its end
           [ok |-> "", st |-> IF s.upd > 0 THEN s
               ELSE [s EXCEPT !.upd = 1, !.due = <<[id |-> s.count, v |-> Expect(c, s), last |-> IF s.n = 0 THEN <<>> ELSE LastOf(c, s)]>>]]
      [] e.op = "row" ->
           LET k == s.rows + 1 IN
           [ok |-> IF k > Len(s.due) THEN "a report that was not due"
                   ELSE LET d == s.due[k]
                            badm == {j \in 1..Len(c.metrics) : ~(\A m \in 1..c.models :
                                     FClose(e.v[j][m][1], d.v[j][m][1], Tol) /\ FClose(e.v[j][m][2], d.v[j][m][2], Tol))}
                        IN IF c.method # "delayed" /\ ~Eq(e.id, d.id) THEN "the sample id of a report is wrong"
                           ELSE IF badm # {} THEN "reported " \o c.metrics[CHOOSE j \in badm : TRUE] \o
                                   " differs from its definition over the results so far / in the window"
                           ELSE IF c.tvp /\ ~(d.last = <<>> \/ (FClose(e.tv, d.last[1][1], Tol) /\
                                   \A m \in 1..c.models : FClose(e.pv[m], d.last[m][2], Tol)))
                                THEN "true_vs_predicted is not the last result"
                           ELSE "",
            st |-> [s EXCEPT !.rows = k]]
      [] e.op = "final" ->
           LET x == Expect(c, s) IN
           [ok |-> IF ~(\A j \in 1..Len(c.metrics) : \A m \in 1..c.models :
                         FClose(e.v[j][m][1], x[j][m][1], Tol) /\ FClose(e.v[j][m][2], x[j][m][2], Tol))
                   THEN "the final measurements differ from their definition over all results" ELSE "",
            st |-> s]
RFinish(c, s) == IF s.rows # Len(s.due) THEN "a report that was due is missing from the output file"
                 ELSE IF s.n # Len(c.res[1]) THEN "not every result was accounted for" ELSE ""
RStart(c) == RInit(c)
INSTANCE TraceCheck WITH Start <- RStart, Step <- RStep, Finish <- RFinish
=============================================================================
