------------------------------ MODULE HoldoutMC2 ------------------------------
EXTENDS HoldoutMC
Conf == [models |-> 2, batch |-> 2, limit |-> 24, rows |-> 21, test |-> 3, wait |-> 5, dynamic |-> TRUE]
=============================================================================
