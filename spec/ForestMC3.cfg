CONSTANTS N = 2 K = 2 T = 3 TW = 1 TD = 1 Warn = TRUE
INIT Init
NEXT Next
INVARIANTS MainExact BackExact Levels Judged AnswerOK Sparse
CHECK_DEADLOCK FALSE
