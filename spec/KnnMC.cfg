CONSTANTS K = 2 W = 3 Depth = 4 MaxFit = 1 Gen = FALSE
INIT Init
NEXT Next
INVARIANTS Newest Exact
