CONSTANTS K = 2 W = 3 Depth = 5 MaxFit = 3 Gen = TRUE
INIT Init
NEXT Next
INVARIANTS Newest Emit
