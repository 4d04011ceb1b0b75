------------------------------ MODULE HoldoutMC1 ------------------------------
EXTENDS HoldoutMC
Conf == [models |-> 2, batch |-> 2, limit |-> 30, rows |-> 17, test |-> 3, wait |-> 4, dynamic |-> FALSE]
=============================================================================
