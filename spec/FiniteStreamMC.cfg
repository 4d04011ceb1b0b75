CONSTANTS N = 5  BatchSizes = {1, 2, 3, 6}  Depth = 6
INIT Init
NEXT Next
INVARIANTS ExactlyOnceInOrder CountsAgree LastBatch
