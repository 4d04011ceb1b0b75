CONSTANTS L = 3  Depth = 2
INIT Init
NEXT Next
INVARIANT Laws
