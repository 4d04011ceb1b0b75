CONSTANTS P <- MCP Depth = 11
INIT Init
NEXT Next
INVARIANTS Exclusive Steady EstimationIsMean WarnFirst Rise
