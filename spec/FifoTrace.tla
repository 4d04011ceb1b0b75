----------------------------- MODULE FifoTrace -----------------------------
(* cfg.kind: "fast" / "complex" / "window" (q, capacity cfg.max), or        *)
(* "conf" / "mol" (matrix of counts).                                       *)
EXTENDS Fifo, Real64, FiniteSets, FiniteSetsExt
VARIABLES tr, i, st
KStart(c) == IF c.kind \in {"conf", "mol"} THEN [m |-> <<>>, n |-> c.n, cnt |-> 0] ELSE [q |-> <<>>]
Nothing(v) == Eq(v, "None") \/ Eq(v, <<>>)
(* what every buffer event shows after the operation *)
Post(c, q, e) ==
    IF ~(Eq(e.q, q) \/ (q = <<>> /\ Nothing(e.q))) THEN "the buffer does not hold exactly the most recent elements in order"
    ELSE IF ~Eq(e.size, Len(q)) THEN "the reported size is not the number of elements held"
    ELSE IF ~Eq(e.full, Len(q) = c.max) \/ ~Eq(e.empty, q = <<>>) THEN "is_full / is_empty disagree with the contents"
    ELSE IF ~Eq(e.peek, Oldest(q)) THEN "peek is not the oldest element" ELSE ""
First(a, b) == IF a # "" THEN a ELSE b
(* counting matrices *)
Max2(a, b) == IF a > b THEN a ELSE b
Grown(c, s, e) == IF c.kind = "conf" THEN Max2(s.n, Max2(e.i, e.j) + 1) ELSE Max2(s.n, e.t + 1)
Key(c, e) == IF c.kind = "conf" THEN <<e.i, e.j>> ELSE <<e.t, e.i, e.j>>
Refused(c, s, e) == c.kind = "mol" /\ (e.i > 1 \/ e.j > 1 \/ e.t > s.n)
Dom(c, n) == IF c.kind = "conf" THEN (0..(n - 1)) \X (0..(n - 1)) ELSE (0..(n - 1)) \X (0..1) \X (0..1)
At(c, v, k) == IF c.kind = "conf" THEN v[k[1] + 1][k[2] + 1] ELSE v[k[1] + 1][k[2] + 1][k[3] + 1]
Diag(c, k) == IF c.kind = "conf" THEN k[1] = k[2] ELSE k[2] = k[3]
MPost(c, s, e) ==
    IF Len(e.m) # s.n THEN "the matrix does not have the size of the classes seen"
    ELSE IF \E k \in Dom(c, s.n) : ~FEq(At(c, e.m, k), Cell(s.m, k)) THEN "a cell is not the weight of the pairs counted in it"
    ELSE IF ~FEq(e.diag, SumSet({0}) + MapThenSumSet(LAMBDA k : IF Diag(c, k) THEN s.m[k] ELSE 0, DOMAIN s.m)) THEN "the sum of the main diagonal is wrong"
    ELSE IF ~FEq(e.total, IF c.kind = "conf" THEN s.cnt ELSE MapThenSumSet(LAMBDA k : s.m[k], DOMAIN s.m)) THEN "the total is wrong"
    ELSE ""
KStep(c, s, e) ==
    CASE e.op = "add" -> LET t == AddKeeps(s.q, c.max, e.xs)
                             v == AddEvicts(s.q, c.max, e.xs)
                         IN [ok |-> First(IF c.kind # "window" /\ ~(IF v = <<>> THEN Nothing(e.ret) ELSE Eq(e.ret, v))
                                          THEN "add_element does not return the elements it threw out" ELSE "", Post(c, t, e)),
                             st |-> [q |-> t]]
      [] e.op = "get" -> [ok |-> First(IF c.kind # "window" /\ ~Eq(e.ret, Oldest(s.q)) THEN "the next element is not the oldest one" ELSE "",
                                       Post(c, DropOldest(s.q), e)), st |-> [q |-> DropOldest(s.q)]]
      [] e.op = "clear" -> [ok |-> Post(c, <<>>, e), st |-> [q |-> <<>>]]
      [] e.op = "update" ->
           LET t == IF Refused(c, s, e) THEN s
                    ELSE [m |-> Bump(s.m, Key(c, e), e.w), n |-> Grown(c, s, e), cnt |-> s.cnt + 1]
           IN [ok |-> First(IF ~Eq(e.ret, ~Refused(c, s, e)) THEN "update does not tell whether it counted the pair" ELSE "", MPost(c, t, e)), st |-> t]
      [] e.op = "remove" ->
           LET in == Key(c, e) \in Dom(c, s.n)
               t == IF in THEN [s EXCEPT !.m = Bump(s.m, Key(c, e), -1), !.cnt = @ - 1] ELSE s
           IN [ok |-> First(IF ~Eq(e.ret, in) THEN "remove does not tell whether it removed a pair" ELSE "", MPost(c, t, e)), st |-> t]
      [] e.op = "restart" -> LET t == [m |-> <<>>, n |-> e.n, cnt |-> 0] IN [ok |-> MPost(c, t, e), st |-> t]
KFinish(c, s) == ""
INSTANCE TraceCheck WITH Start <- KStart, Step <- KStep, Finish <- KFinish
=============================================================================
