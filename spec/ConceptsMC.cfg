CONSTANT Depth = 8
INIT Init
NEXT Next
INVARIANTS Balanced Changes
