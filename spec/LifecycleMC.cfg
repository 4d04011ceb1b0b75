CONSTANTS Depth = 4 Gen = FALSE N = 2
INIT Init
NEXT Next
INVARIANTS Fold Isolated Functional Fine
