CONSTANTS Kind = "clean" How = "mode" Size = 3 T = 4
INIT Init
NEXT Next
INVARIANTS WindowOK Allowed CleanOK OrderOK StdOK CodeOK
CHECK_DEADLOCK FALSE
