---------------------------- MODULE TransformsTrace -----------------------------
EXTENDS Transforms, TLC
VARIABLES tr, i, st
(* cfg: ts (one transform, or the steps of a pipeline), strict.
   tr / pft: x, out;  learn: x      - a transform by itself
   taught: x, got (rows the final learner was given), y, goty, classes, gotc, how;  asked: x, got, out (its answers), back - a pipeline *)
TStart(c) == [k \in 1..Len(c.ts) |-> State0(c.ts[k])]
RECURSIVE Row(_, _, _, _, _)
Row(c, w, e, k, bad) ==
    IF k > Len(e.x) \/ bad # "" THEN [w |-> w, bad |-> bad]
    ELSE LET w1 == Force(After(c.ts[1], w, e.x[k])) IN
         Row(c, w1, e, k + 1, IF Fits(c.ts[1], w, w1, e.x[k], e.out[k], c.strict) THEN ""
                              ELSE IF c.strict /\ c.ts[1].kind = "minmax" THEN "a value is not scaled into the window's range" ELSE "a row is transformed wrongly")
Same(A, B) == Len(A) = Len(B) /\ \A k \in 1..Len(A) : Len(A[k]) = Len(B[k]) /\ \A j \in 1..Len(A[k]) : Near(A[k][j], B[k][j])
TStep(c, s, e) ==
    IF e.raised # "" THEN [ok |-> e.op \o " raised " \o e.raised, st |-> s]
    ELSE CASE e.op = "learn" -> [ok |-> IF e.me THEN "" ELSE "partial_fit does not return the transform",
                                 st |-> <<LET w == Learnt(c.ts[1], s[1], Len(e.x)) IN
                                          IF Windowed(c.ts[1]) THEN LastRows(w \o e.x, c.ts[1].size) ELSE w>>]
           [] e.op \in {"tr", "pft"} ->
                IF Len(e.out) # Len(e.x) THEN [ok |-> "not one row comes out per row", st |-> s]
                ELSE LET r == Row(c, IF e.op = "pft" THEN Learnt(c.ts[1], s[1], Len(e.x)) ELSE s[1], e, 1, "") IN [ok |-> r.bad, st |-> <<r.w>>]
           [] e.op = "taught" ->
                LET r == Steps(c.ts, s, e.x, 1, e.how) IN
                [ok |-> IF ~Same(e.got, r.X) THEN "the final learner is not taught the rows as transformed by the steps"
                        ELSE IF e.y # e.goty THEN "the final learner is taught other labels"
                        ELSE IF e.classes # e.gotc THEN "the final learner is not told the classes" ELSE "", st |-> r.ws]
           [] e.op = "asked" ->
                LET r == Steps(c.ts, s, e.x, 1, e.how) IN
                [ok |-> IF ~Same(e.got, r.X) THEN "the final learner is not asked about the rows as transformed by the steps"
                        ELSE IF e.out # e.back THEN "the answer is not the final learner's"
                        ELSE "", st |-> r.ws]
           [] OTHER -> [ok |-> "", st |-> s]
TFinish(c, s) == ""
INSTANCE TraceCheck WITH Start <- TStart, Step <- TStep, Finish <- TFinish
=============================================================================
