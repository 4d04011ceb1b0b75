CONSTANTS Kind = "mol" L = 2 T = 3 Order = "none"
INIT Init
NEXT Next
INVARIANTS OrdersOK RowsOnly FirstOK
CHECK_DEADLOCK FALSE
