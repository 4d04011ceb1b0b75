CONSTANTS Kind = "cc" L = 3 T = 2 Order = "random"
INIT Init
NEXT Next
INVARIANTS Distribution BestOK TriesOK OrdersOK RowsOnly FirstOK
CHECK_DEADLOCK FALSE
