------------------------------ MODULE TraceIO ------------------------------
(* The recorded traces (a JSON array in the file named by the environment   *)
(* variable TRACES).  Both operators are evaluated by java/TraceIO.java.    *)
NTraces == 0
TraceAt(k) == k
=============================================================================
