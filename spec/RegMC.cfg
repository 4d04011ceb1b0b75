CONSTANTS Vals = {0, 1, 3}  Depth = 2
INIT Init
NEXT Next
INVARIANT Laws
