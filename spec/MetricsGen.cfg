CONSTANTS Classes = {0, 1, 2}  Win = 2  Depth = 3
INIT Init
NEXT Next
INVARIANTS Bounds Perfect Marginals WindowLen Emit
