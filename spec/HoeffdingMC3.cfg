CONSTANTS T = 6 V = 2 Grace = 2 Crit = "gini" Conf = "0.5" Tie = "0.5" Binary = TRUE LeafP = "nb" Gen = FALSE
INIT Init
NEXT Next
INVARIANTS Conserved ByClass Splitting Answers NeverOff 
VIEW View
