-------------------------- MODULE DriftStreamTrace --------------------------
(* cfg: pos, width; A, B: the two sources' samples as fingerprints, read from *)
(* equal stand-alone instances.  A trace may hold several passes separated by *)
(* restart; every pass must pick the same sources.                            *)
EXTENDS DriftStream, Real64
VARIABLES tr, i, st

ProbB(c, n) == FDiv("1.0", FAdd("1.0", FExp(FDiv(FMul("-4.0", n - c.pos), c.width))))
Tiny == "1e-7"

DSStart(c) == [d |-> DInit, picks |-> <<>>, first |-> <<>>, pass |-> 1,
               ea |-> "0.0", eb |-> "0.0"]

(* consume one observed row: which source is it the next sample of? *)
RECURSIVE Rows(_, _, _, _)
Rows(c, s, rows, k) ==
    IF k > Len(rows) THEN [ok |-> "", st |-> s]
    ELSE LET d == s.d
             isA == d.a < Len(c.A) /\ Eq(rows[k], c.A[d.a + 1])
             isB == d.b < Len(c.B) /\ Eq(rows[k], c.B[d.b + 1])
             p == ProbB(c, d.n + 1)
             who == IF isA THEN "A" ELSE "B"
             s2 == [s EXCEPT !.d = IF isA THEN TakeA(d) ELSE TakeB(d),
                             !.picks = Append(@, who),
                             !.ea = FAdd(@, p),
                             !.eb = FAdd(@, FMul(p, FSub("1.0", p)))] IN
         IF ~isA /\ ~isB THEN [ok |-> "sample is not the next undelivered sample of either source", st |-> s]
         ELSE IF isA /\ FGt(p, FSub("1.0", Tiny))
              THEN [ok |-> "sample of the old concept long after the drift", st |-> s]
         ELSE IF isB /\ FLt(p, Tiny) THEN [ok |-> "sample of the new concept long before the drift", st |-> s]
         ELSE IF s.pass > 1 /\ Len(s2.picks) <= Len(s.first) /\ s.first[Len(s2.picks)] # who
              THEN [ok |-> "restart does not replay the same sequence", st |-> s]
         ELSE Rows(c, s2, rows, k + 1)

NB(picks) == Len(SelectSeq(picks, LAMBDA w : w = "B"))
(* the number of B picks is within 6 standard deviations (+2) of its expectation *)
SigmoidOk(s) == FLe(FAbs(FSub(NB(s.picks), s.ea)), FAdd("2.0", FMul("6.0", FSqrt(s.eb))))

DSStep(c, s, e) ==
    CASE e.op = "next" ->
           IF ~Eq(Len(e.got), e.b) THEN [ok |-> "batch does not have the requested number of rows", st |-> s]
           ELSE IF ~Eq(e.last, e.got) THEN [ok |-> "last_sample is not the last batch", st |-> s]
           ELSE LET r == Rows(c, s, e.got, 1) IN
                IF r.ok # "" THEN r
                ELSE IF ~Eq(e.rem, IF c.na < 0 \/ c.nb < 0 THEN -1
                                   ELSE c.na + c.nb - r.st.d.n)
                     THEN [ok |-> "n_remaining_samples is not the sum of what the sources have left", st |-> s]
                ELSE IF ~Eq(e.has, (c.na < 0 \/ r.st.d.a < c.na) /\ (c.nb < 0 \/ r.st.d.b < c.nb))
                     THEN [ok |-> "has_more_samples", st |-> s]
                ELSE r
      [] e.op = "restart" ->
           [ok |-> IF SigmoidOk(s) THEN "" ELSE "share of the new concept does not follow the sigmoid",
            st |-> [DSStart(c) EXCEPT !.pass = s.pass + 1,
                    !.first = IF Len(s.picks) > Len(s.first) THEN s.picks ELSE s.first]]
DSFinish(c, s) == IF SigmoidOk(s) THEN "" ELSE "share of the new concept does not follow the sigmoid"
INSTANCE TraceCheck WITH Start <- DSStart, Step <- DSStep, Finish <- DSFinish
=============================================================================
