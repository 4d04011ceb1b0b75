CONSTANTS Kind = "add"
N = 3
Period = 2
T = 5
K = 2
Gen = TRUE
INIT Init
NEXT Next
INVARIANTS Emit
CHECK_DEADLOCK FALSE
