CONSTANTS N = 4  BatchSizes = {1, 3, 6}  Depth = 4
INIT Init
NEXT Next
INVARIANTS ExactlyOnceInOrder CountsAgree LastBatch Emit
