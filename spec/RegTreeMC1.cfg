CONSTANTS
  T = 5
  V = 3
  W = 5
  Grace = 10
  Conf = "0.5"
  Tie = "0.1"
  Nom = {1, 2}
  Binary = FALSE
  LeafP = "mean"
  Ys = {0, 4}
  Kind = "single"
  K = 1
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Conserved Whole Splitting Filled Between Normed Some
