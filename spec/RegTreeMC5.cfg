CONSTANTS
  T = 4
  V = 2
  W = 3
  Grace = 6
  Conf = "0.9"
  Tie = "0.3"
  Nom = {2}
  Binary = TRUE
  LeafP = "adaptive"
  Ys = {0, 4}
  Kind = "sst"
  K = 2
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Conserved Whole Splitting Filled Between Normed Some
