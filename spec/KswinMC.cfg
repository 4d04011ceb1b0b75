CONSTANTS Depth = 9
INIT Init
NEXT Next
INVARIANTS Suffix Bound Shrunk
