CONSTANTS N = 4  BatchSizes = {1, 2, 3, 6}  Depth = 5
INIT Init
NEXT Next
INVARIANTS ExactlyOnceInOrder CountsAgree LastBatch Emit
