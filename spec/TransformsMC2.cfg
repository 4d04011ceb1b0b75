CONSTANTS Kind = "minmax" How = "none" Size = 2 T = 5
INIT Init
NEXT Next
INVARIANTS WindowOK Allowed CleanOK OrderOK StdOK CodeOK
CHECK_DEADLOCK FALSE
