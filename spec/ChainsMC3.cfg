CONSTANTS Kind = "pcc" L = 2 T = 3 Order = "random"
INIT Init
NEXT Next
INVARIANTS Distribution BestOK TriesOK OrdersOK RowsOnly FirstOK
CHECK_DEADLOCK FALSE
