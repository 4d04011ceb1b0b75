CONSTANTS Kind = "dwm"
N = 2
Period = 2
T = 7
K = 2
Gen = FALSE
INIT Init
NEXT Next
VIEW View
INVARIANTS Bounded Positive Scaled Shared Ages
CHECK_DEADLOCK FALSE
