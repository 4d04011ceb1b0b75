CONSTANTS Classes = {0, 1, 2}  Win = 3  Depth = 4
INIT Init
NEXT Next
INVARIANTS Bounds Perfect Marginals WindowLen Emit
