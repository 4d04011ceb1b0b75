CONSTANTS Insts = 2  BatchSizes = {1, 3}  Depth = 4
INIT Init
NEXT Next
INVARIANTS Prefix Agree Emit
