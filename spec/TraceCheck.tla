----------------------------- MODULE TraceCheck -----------------------------
(***************************************************************************)
(* Generic trace validation.  A trace recorded from the implementation is  *)
(* a record [name, cfg, ev] where ev is a sequence of observed events.     *)
(* The instantiating specification supplies                                 *)
(*   Start(cfg)         the specification's initial state for cfg          *)
(*   Step(cfg, st, e)   [ok |-> "" or the clause that e violates,          *)
(*                       st |-> the specification's next state]            *)
(*   Finish(cfg, st)    "" or the clause violated by the complete trace    *)
(* Every trace ends in exactly one verdict line: ACC or BAD.  All traces of *)
(* a run are explored from the initial states of one TLC run.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, TraceIO

CONSTANTS Start(_), Step(_, _, _), Finish(_, _)
VARIABLES tr, i, st

TInit == /\ tr \in 1..NTraces
         /\ i = 0
         /\ LET T == TraceAt(tr) IN
            st = IF T.early THEN "failed before the initial state" ELSE Start(T.cfg)

Bad(why) == /\ PrintT("@BAD " \o ToString(tr) \o " " \o ToString(i + 1) \o " " \o why)
            /\ i' = -1 /\ st' = "rejected" /\ tr' = tr

TNext ==
    /\ i >= 0
    /\ LET T == TraceAt(tr) IN
       IF i < Len(T.ev)
       THEN IF T.ev[i + 1].op = "EXC"
            THEN Bad("unexpected exception: " \o T.ev[i + 1].what)
            ELSE IF T.ev[i + 1].op = "HELD"       \* fingerprints of values handed out, then and now
            THEN IF T.ev[i + 1].was = T.ev[i + 1].now THEN i' = i + 1 /\ st' = st /\ tr' = tr
                 ELSE Bad("data handed out (or taken in) earlier was altered by a later operation")
            ELSE \E r \in {Step(T.cfg, st, T.ev[i + 1])} :
               IF r.ok = "" THEN i' = i + 1 /\ st' = r.st /\ tr' = tr
               ELSE Bad(r.ok)
       ELSE \E w \in {Finish(T.cfg, st)} :
               IF w = "" THEN /\ PrintT("@ACC " \o ToString(tr))
                              /\ i' = -1 /\ st' = "accepted" /\ tr' = tr
               ELSE Bad(w)
=============================================================================
