---------------------------- MODULE SeededStream ----------------------------
(***************************************************************************)
(* A seeded generator: several instances built from the same parameters    *)
(* and seed are cursors over one and the same endless sequence.  Reading   *)
(* b samples from an instance delivers positions pos+1 .. pos+b of that     *)
(* sequence; restart rewinds the one instance; foreign activity (other      *)
(* generators, the global random state) has no effect.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences

GInit(k) == [pos |-> [j \in 1..k |-> 0], lo |-> [j \in 1..k |-> 0]]
GNext(s, j, b) == [pos |-> [s.pos EXCEPT ![j] = @ + b], lo |-> [s.lo EXCEPT ![j] = s.pos[j]]]
GRestart(s, j) == [pos |-> [s.pos EXCEPT ![j] = 0], lo |-> [s.lo EXCEPT ![j] = 0]]
GBatch(s, j) == [k \in 1..(s.pos[j] - s.lo[j]) |-> s.lo[j] + k]
=============================================================================
