CONSTANTS T = 5 V = 3 Grace = 2 Crit = "hellinger" Conf = "0.5" Tie = "0.5" Ordered = FALSE Max = 2 Det = 0 Minw = 0 How = "weighted_max" Gen = FALSE
INIT Init
NEXT Next
INVARIANTS Conserved Shaped NoRepeat Weights Answers 
VIEW View
