CONSTANTS T = 6 V = 2 Grace = 2 Crit = "info_gain" Conf = "0.5" Tie = "0.5" Ordered = TRUE Max = 3 Det = 0 Minw = 0 How = "first_hit" Gen = FALSE
INIT Init
NEXT Next
INVARIANTS Conserved Shaped NoRepeat Weights Answers 
VIEW View
