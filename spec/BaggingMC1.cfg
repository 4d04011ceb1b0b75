CONSTANTS Kind = "oza"
Alg = 1
Max = 1
T = 5
Deep = FALSE
INIT Init
NEXT Next
VIEW View
INVARIANTS Holds OneAtMost Worst Others Cause Probabilities Rates Codes
CHECK_DEADLOCK FALSE
