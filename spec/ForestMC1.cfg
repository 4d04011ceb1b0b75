CONSTANTS N = 1 K = 2 T = 6 TW = 1 TD = 2 Warn = TRUE
INIT Init
NEXT Next
INVARIANTS MainExact BackExact Levels Judged AnswerOK Sparse
CHECK_DEADLOCK FALSE
