CONSTANTS Insts = 2  BatchSizes = {1, 2, 3}  Depth = 5
INIT Init
NEXT Next
INVARIANTS Prefix Agree
