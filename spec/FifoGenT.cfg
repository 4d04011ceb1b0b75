CONSTANTS Max = 3 MaxAdd = 4 Depth = 5
INIT Init
NEXT Next
INVARIANTS Order Bound Emit
