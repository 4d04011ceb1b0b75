CONSTANTS N = 1 K = 3 T = 4 TW = 2 TD = 2 Warn = TRUE
INIT Init
NEXT Next
INVARIANTS MainExact BackExact Levels Judged AnswerOK Sparse
CHECK_DEADLOCK FALSE
