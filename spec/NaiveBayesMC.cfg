CONSTANTS T = 3
INIT Init
NEXT Next
INVARIANTS Classes Exact Proper
CHECK_DEADLOCK FALSE
