CONSTANTS N = 6 MaxDelay = 3 Batch = 2 Pre = 1 Limit = 6 NModels = 2
INIT Init
NEXT Next
INVARIANTS NoPeek Once Everything NoDeadlock
