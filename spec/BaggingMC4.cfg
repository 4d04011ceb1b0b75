CONSTANTS Kind = "lev"
Alg = 2
Max = 1
T = 5
Deep = TRUE
INIT Init
NEXT Next
VIEW View
INVARIANTS Holds OneAtMost Worst Others Cause Probabilities Rates Codes
CHECK_DEADLOCK FALSE
