CONSTANTS N = 6 MaxDelay = 4 Batch = 1 Pre = 0 Limit = 4 NModels = 1
INIT Init
NEXT Next
INVARIANTS NoPeek Once Everything NoDeadlock
