------------------------------- MODULE AdwinMC2 -------------------------------
EXTENDS AdwinMC
MCP == [maxb |-> 2, clock |-> 2, minwin |-> 3, minlen |-> 2, delta |-> "0.9", exactvar |-> FALSE, fullscan |-> FALSE]
=============================================================================
