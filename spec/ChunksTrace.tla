----------------------------- MODULE ChunksTrace ------------------------------
EXTENDS Chunks, TLC
VARIABLES tr, i, st
(* cfg: p.  feed: c, y, w, raised, weighted, told, train = list of [ids (1 = first row of the first chunk), ws, cls, te] in order of training *)
CStart(cfg) == [s |-> [mem |-> <<>>, loose |-> FALSE, dev |-> <<0, 0>>], buf |-> [c |-> <<>>, y |-> <<>>, w |-> <<>>], at |-> 0, done |-> 0]
Local(t, at, p) == [k \in 1..Len(t) |-> t[k] - at]
Mine(e, at, p) == SelectSeq(e.train, LAMBDA t : t.ids[1] > at /\ t.ids[1] <= at + p.win)
Inside(t, at, p) == \A k \in 1..Len(t.ids) : t.ids[k] > at /\ t.ids[k] <= at + p.win
Weights(p, ch, t, at, weighted) == IF ~weighted THEN \A k \in 1..Len(t.ws) : t.ws[k] = 1
                                   ELSE Len(t.ws) = Len(t.ids) /\ \A k \in 1..Len(t.ids) : t.ws[k] = ch.w[t.ids[k] - at]
Whole(ch, ids) == Len(ids) = Size(ch) /\ \A k \in 1..Len(ids) : ids[k] = k
Labels(ch, t, at) == \A k \in 1..Len(t.ids) : t.ys[k] = ch.y[t.ids[k] - at]
(* a full chunk *)
Chunk(cfg, s, ch, e, at) ==
    LET p == cfg.p
        ts == Mine(e, at, p)
        whole == SelectSeq(ts, LAMBDA t : Whole(ch, Local(t.ids, at, p)))
        part == SelectSeq(ts, LAMBDA t : ~Whole(ch, Local(t.ids, at, p)))
        folds == [k \in 1..Len(part) |-> Local(part[k].ids, at, p)]
        common == IF \E k \in 1..Len(ts) : ~Inside(ts[k], at, p) THEN "a member is trained with rows of another chunk"
                  ELSE IF \E k \in 1..Len(ts) : ~Labels(ch, ts[k], at) THEN "a member is trained with other labels" ELSE ""
        oneWhole == IF Len(whole) # 1 \/ ~Weights(p, ch, whole[1], at, e.weighted) THEN "not one new member is trained with the chunk and its weights" ELSE ""
    IN IF common # "" THEN [s |-> s, bad |-> common]
       ELSE CASE p.kind = "bi" -> [s |-> BiChunk(p, s, ch), bad |-> IF part # <<>> THEN "a member is trained with something else than a chunk" ELSE oneWhole]
              [] p.kind = "awe" -> IF oneWhole # "" THEN [s |-> s, bad |-> oneWhole]
                                   ELSE IF ~FoldsOK(p, ch, folds) THEN [s |-> s, bad |-> "the new member is not cross-validated on the chunk"]
                                   ELSE [s |-> AweChunk(p, s, ch, folds), bad |-> ""]
              [] p.kind = "nse" -> [s |-> NseChunk(p, s, ch), bad |-> IF part # <<>> \/ Len(whole) \notin 1..2 THEN "not one new member is trained with the chunk" ELSE ""]
              [] p.kind = "lpp" -> LppChunk(p, s, ch, [k \in 1..Len(ts) |-> [tr |-> Local(ts[k].ids, at, p), te |-> Local(ts[k].te, at, p)]])
RECURSIVE Feed(_, _, _, _)
Feed(cfg, a, e, k) ==
    IF k > Len(e.c) \/ a.bad # "" THEN a
    ELSE LET b == [c |-> Append(a.buf.c, e.c[k]), y |-> Append(a.buf.y, e.y[k]), w |-> Append(a.buf.w, e.w[k])]
         IN IF Len(b.c) < cfg.p.win THEN Feed(cfg, [a EXCEPT !.buf = b], e, k + 1)
            ELSE LET r == Chunk(cfg, a.s, b, e, a.at)
                 IN Feed(cfg, [s |-> Force(r.s), buf |-> [c |-> <<>>, y |-> <<>>, w |-> <<>>], at |-> a.at + cfg.p.win, bad |-> r.bad, done |-> a.done + Len(Mine(e, a.at, cfg.p))], e, k + 1)
FeedStep(cfg, st0, e) ==
    LET a == Feed(cfg, [s |-> st0.s, buf |-> st0.buf, at |-> st0.at, bad |-> "", done |-> 0], e, 1)
    IN [ok |-> CASE st0.s.loose -> ""
                 [] cfg.p.kind = "lpp" /\ e.raised = "raise:RuntimeError" /\ e.tries > 1000 -> ""      \* no estimator is good enough
                 [] e.raised # "" -> "training raised " \o e.raised
                 [] a.bad # "" /\ ~a.s.loose -> a.bad
                 [] e.raised # "" -> "training raised " \o e.raised
                 [] a.s.loose -> ""
                 [] a.done # Len(e.train) -> "members are trained before a chunk is full, or again"
                 [] OTHER -> "", st |-> [s |-> a.s, buf |-> a.buf, at |-> a.at, done |-> 0]]
Ask(cfg, st0, e) ==
    LET p == cfg.p
        s == st0.s
        n == Len(e.c)
        Vec(k) == [l \in 1..p.K |-> e.proba[k][l]]
    IN IF s.loose THEN ""
       ELSE IF Len(e.pred) # n THEN "not one answer per row"
       ELSE IF s.mem = <<>> THEN (IF \E k \in 1..n : e.pred[k] # e.first THEN "the answer before training is not the default" ELSE "")
       ELSE CASE p.kind = "bi" -> IF \E k \in 1..n : e.pred[k] # BiSays(p, s, e.c[k]) THEN "the prediction is not the majority of the members" ELSE ""
              [] p.kind = "awe" -> IF AweTied(p, s) \/ \A k \in 1..n : AweOK(p, s, e.c[k], e.pred[k]) THEN ""
                                   ELSE "the prediction is not the weighted vote of the best members"
              [] p.kind \in {"nse", "lpp"} ->
                   LET V(k) == IF p.kind = "nse" THEN NseVote(p, s, e.c[k]) ELSE LppTotal(p, s, e.c[k])
                   IN IF \E k \in 1..n : Len(e.proba[k]) # p.K \/ ~FCloseSeq(Vec(k), V(k), "1e-06") THEN "the votes are not the members' votes, weighted by their errors"
                      ELSE IF \E k \in 1..n : \E l \in 1..p.K : FGt(FSub(V(k)[l], V(k)[e.pred[k]]), "1e-06") THEN "the prediction is not the label with most votes" ELSE ""
CStep(cfg, s, e) ==
    CASE e.op = "feed" -> FeedStep(cfg, s, e)
      [] e.op = "ask" -> [ok |-> Ask(cfg, s, e), st |-> s]
      [] e.op = "reset" -> [ok |-> IF e.raised # "" THEN "reset raised " \o e.raised ELSE "", st |-> [CStart(cfg) EXCEPT !.s.dev = s.s.dev, !.at = e.at]]
CFinish(cfg, s) == IF ~s.s.loose /\ FGt(FAbs(s.s.dev[1]), FAdd(FMul(7, FSqrt(s.s.dev[2])), 20)) THEN "rows are not drawn by their probabilities" ELSE ""
INSTANCE TraceCheck WITH Start <- CStart, Step <- CStep, Finish <- CFinish
=============================================================================
