------------------------------- MODULE ChunksMC --------------------------------
(* Every sequence of chunks, and for Learn++ every draw: sizes of the ensembles, ranges of weights, who is kept. *)
EXTENDS Chunks, TLC
CONSTANTS Kind, Style, Prune, Win, N, T
MCP == [kind |-> Kind, style |-> Style, C |-> 2, K |-> 2, win |-> Win, n |-> N, kept |-> N + 1, folds |-> 2, fresh |-> TRUE, slope |-> "0.5", cross |-> 0, prune |-> Prune,
        nens |-> 2, thr |-> "0.5"]
VARIABLES s, t, chs, a, prev
Chunks0 == {[c |-> c, y |-> y, w |-> [j \in 1..Win |-> 1]] : c \in [1..Win -> 1..2], y \in [1..Win -> 1..2]}
NoA == [ens |-> <<>>, D |-> [j \in 1..Win |-> FDiv(1, Win)], over |-> FALSE, loose |-> FALSE, bad |-> "", dev |-> <<0, 0>>]
Init == s = [mem |-> <<>>, loose |-> FALSE, dev |-> <<0, 0>>] /\ t = 0 /\ chs = <<>> /\ a = NoA /\ prev = <<>>
Half == [j \in 1..(Win \div 2) |-> j]
OtherHalf == [j \in 1..(Win - Win \div 2) |-> j + Win \div 2]
Step(ch) == CASE Kind = "bi" -> BiChunk(MCP, s, ch) [] Kind = "awe" -> AweChunk(MCP, s, ch, <<Half, OtherHalf>>) [] Kind = "nse" -> NseChunk(MCP, s, ch)
NextChunk == Kind # "lpp" /\ t < T /\ \E ch \in Chunks0 : s' = Force(Step(ch)) /\ chs' = Append(chs, ch) /\ t' = t + 1 /\ a' = a /\ prev' = s.mem
(* Learn++: one chunk, attempt by attempt *)
Draws == [1..(Win \div 2) -> 1..Win]
NextTry == Kind = "lpp" /\ t < T /\ ~a.over /\ \E ch \in (IF chs = <<>> THEN Chunks0 ELSE {chs[1]}) : \E tr \in Draws : \E te \in Draws :
    LET x == Attempt(MCP, a, ch, [tr |-> tr, te |-> te]) IN
    x.bad = "" /\ a' = [x EXCEPT !.dev = <<0, 0>>] /\ chs' = <<ch>> /\ t' = t + 1 /\ s' = s /\ prev' = a.D
Next == NextChunk \/ NextTry
Sizes == Len(s.mem) <= (CASE Kind = "bi" -> N [] Kind = "awe" -> N + 1 [] Kind = "nse" -> (IF Prune = "none" THEN T ELSE N) [] OTHER -> 0)
(* BatchIncremental knows exactly the last n chunks *)
Latest == Kind = "bi" => \A k \in 1..Len(s.mem) : s.mem[k] = Learn(Zero(MCP), chs[Len(chs) - Len(s.mem) + k], All(chs[1]), TRUE)
(* AWE: values between 0 and chance; a member is only given up for a better one; right members are worth more than chance *)
Values == Kind = "awe" => \A k \in 1..Len(s.mem) : FGe(s.mem[k].w, 0) /\ FLe(s.mem[k].w, Chance(MCP, chs[Len(chs)]))
GivenUp == Kind = "awe" /\ Len(prev) = N + 1 => \A k \in 1..Len(prev) : (\E h \in 1..Len(s.mem) : s.mem[h].m = prev[k].m)
                                                 \/ \E h \in 1..Len(s.mem) : s.mem[h].m = Learn(Zero(MCP), chs[Len(chs)], All(chs[1]), TRUE)
(* NSE: a member that was right on all chunks has the largest weight; errors are shares; the averages' weights add up to 1 at the first chunk only *)
Errors == Kind = "nse" => \A k \in 1..Len(s.mem) : \A j \in 1..Len(s.mem[k].b) : FGe(s.mem[k].b[j], 0) /\ FGt(s.mem[k].o[j], 0) /\ FLe(s.mem[k].o[j], 1)
OldErrors == Kind = "nse" => \A k \in 1..Len(s.mem) : \A j \in 2..Len(s.mem[k].b) : FLe(s.mem[k].b[j], 1)
Voices == Kind = "nse" => \A k, h \in 1..Len(s.mem) : (\A j \in 1..Len(s.mem[k].b) : FEq(s.mem[k].b[j], 0)) => FGe(FAdd(s.mem[k].w, "1e-9"), s.mem[h].w)
Ages == Kind = "nse" /\ Prune # "error" => \A k \in 1..Len(s.mem) : Len(s.mem[k].b) = Len(s.mem) - k + 1 \/ Prune = "age"
(* Learn++: the distribution stays one; rows it gets wrong become no less likely, rows it gets right no more; hypotheses are better than the threshold *)
Spread == Kind = "lpp" => FClose(FSum(a.D), 1, "1e-9") \/ FEq(FSum(a.D), 0)
Good == Kind = "lpp" => \A k \in 1..Len(a.ens) : FLt(a.ens[k].e, 1) /\ FGe(a.ens[k].e, 0)
Harder == Kind = "lpp" /\ a.ens # <<>> /\ ~a.over => \A j, k \in 1..Win :
    LET v(i) == Best(LppVote(MCP, a.ens, chs[1].c[i])) = chs[1].y[i] IN (v(j) /\ ~v(k) /\ FEq(prev[j], prev[k]) /\ a.D # prev) => FLe(a.D[j], a.D[k])
Few == Len(a.ens) <= N
View == <<s, t, a.ens, a.D, a.over, prev, IF Kind \in {"lpp", "bi"} THEN chs ELSE IF chs = <<>> THEN <<>> ELSE <<chs[Len(chs)]>>>>
=============================================================================
