--------------------------- MODULE PrequentialMC1 ---------------------------
EXTENDS PrequentialMC
Conf == [models |-> 3, batch |-> 2, pre |-> 3, limit |-> 12, rows |-> 10]
=============================================================================
