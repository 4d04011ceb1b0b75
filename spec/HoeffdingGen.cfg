CONSTANTS T = 4 V = 2 Grace = 2 Crit = "info_gain" Conf = "0.6" Tie = "0.6" Binary = FALSE LeafP = "nba" Gen = TRUE
INIT Init
NEXT Next
INVARIANTS Conserved ByClass Splitting Answers NeverOff Emit
