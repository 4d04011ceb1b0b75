CONSTANTS T = 4 V = 2 Grace = 2 Crit = "info_gain" Conf = "0.6" Tie = "0.6" Ordered = FALSE Max = 2 Det = 1 Minw = 1 How = "weighted_sum" Gen = TRUE
INIT Init
NEXT Next
INVARIANTS Conserved Shaped NoRepeat Weights Answers Emit

