CONSTANTS T = 5 V = 3 Grace = 2 Crit = "info_gain" Conf = "0.3" Tie = "0.3" Binary = TRUE LeafP = "nba" Gen = FALSE
INIT Init
NEXT Next
INVARIANTS Conserved ByClass Splitting Answers NeverOff 
VIEW View
