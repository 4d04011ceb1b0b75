CONSTANTS Max = 3 MaxAdd = 5 Depth = 6
INIT Init
NEXT Next
INVARIANTS Order Bound
