CONSTANTS K = 1 MaxW = 5 MaxL = 2 MinS = 2 Opt = "maxACCApprox" UseLtm = TRUE Depth = 6 Pts = {0, 1, 3}
INIT Init
NEXT Next
INVARIANTS Suffix Budget Records Older MinSize ExactHist ExactWhole
