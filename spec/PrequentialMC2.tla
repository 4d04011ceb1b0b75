--------------------------- MODULE PrequentialMC2 ---------------------------
EXTENDS PrequentialMC
Conf == [models |-> 2, batch |-> 3, pre |-> 0, limit |-> 20, rows |-> -1]
=============================================================================
