CONSTANTS P <- MCP Values = {0, 3, 9} Depth = 7
INIT Init
NEXT Next
INVARIANTS Suffix Covers Bounded NoGap Summaries TotalOK VarOK Constant Counted
