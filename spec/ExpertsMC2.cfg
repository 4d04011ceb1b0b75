CONSTANTS Kind = "dwm"
N = 3
Period = 1
T = 7
K = 2
Gen = FALSE
INIT Init
NEXT Next
VIEW View
INVARIANTS Bounded Positive Scaled Shared Ages
CHECK_DEADLOCK FALSE
