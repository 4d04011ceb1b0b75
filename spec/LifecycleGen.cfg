CONSTANTS Depth = 6 Gen = TRUE N = 2
INIT Init
NEXT Next
INVARIANTS Fold Isolated Functional Emit
