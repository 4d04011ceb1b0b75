CONSTANTS T = 6 V = 2 Grace = 2 Crit = "info_gain" Conf = "0.6" Tie = "0.6" Ordered = FALSE Max = 3 Det = 1 Minw = 1 How = "weighted_sum" Gen = FALSE
INIT Init
NEXT Next
INVARIANTS Conserved Shaped NoRepeat Weights Answers 
VIEW View
