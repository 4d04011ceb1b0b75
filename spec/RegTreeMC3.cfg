CONSTANTS
  T = 4
  V = 2
  W = 3
  Grace = 6
  Conf = "0.9"
  Tie = "0.3"
  Nom = {2}
  Binary = TRUE
  LeafP = "perceptron"
  Ys = {0, 1, 4}
  Kind = "single"
  K = 1
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Conserved Whole Splitting Filled Between Normed Some
