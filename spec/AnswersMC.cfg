CONSTANTS L = 3
N = 5
INIT Init
NEXT Next
INVARIANTS Sound Sharp
