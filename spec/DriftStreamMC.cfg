CONSTANT Depth = 9
INIT Init
NEXT Next
INVARIANT Merge
