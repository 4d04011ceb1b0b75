CONSTANTS Kind = "onehot" How = "none" Size = 1 T = 1
INIT Init
NEXT Next
INVARIANTS WindowOK Allowed CleanOK OrderOK StdOK CodeOK
CHECK_DEADLOCK FALSE
