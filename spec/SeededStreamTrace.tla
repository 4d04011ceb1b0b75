------------------------- MODULE SeededStreamTrace -------------------------
(* cfg.ref: fingerprints of the samples an equal instance delivered one at a *)
(* time; cfg.k: number of instances.                                         *)
EXTENDS SeededStream, Real64
VARIABLES tr, i, st
GSStart(c) == GInit(c.k)
GSStep(c, s, e) ==
    CASE e.op = "next" ->
           LET t == GNext(s, e.j, e.b)
               want == [k \in 1..e.b |-> c.ref[s.pos[e.j] + k]] IN
           [ok |-> IF ~Eq(Len(e.got), e.b) THEN "batch does not have the requested number of rows"
                   ELSE IF ~Eq(e.got, want) THEN "samples differ from the sequence fixed by parameters and seed"
                   ELSE IF ~Eq(e.last, want) THEN "last_sample is not the last batch"
                   ELSE IF ~Eq(e.rem, -1) THEN "n_remaining_samples of an endless generator is not -1"
                   ELSE IF ~Eq(e.has, TRUE) THEN "has_more_samples of an endless generator is not true"
                   ELSE IF ~Eq(e.nf, c.nf) THEN "rows do not have n_features columns"
                   ELSE "",
            st |-> t]
      [] e.op = "restart" -> [ok |-> "", st |-> GRestart(s, e.j)]
      [] e.op = "foreign" -> [ok |-> "", st |-> s]
GSFinish(c, s) == ""
INSTANCE TraceCheck WITH Start <- GSStart, Step <- GSStep, Finish <- GSFinish
=============================================================================
