CONSTANTS T = 6 V = 2 Grace = 2 Crit = "info_gain" Conf = "0.5" Tie = "0.5" Binary = FALSE LeafP = "mc" Gen = FALSE
INIT Init
NEXT Next
INVARIANTS Conserved ByClass Splitting Answers NeverOff 
VIEW View
