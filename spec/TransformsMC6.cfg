CONSTANTS Kind = "clean" How = "zero" Size = 2 T = 4
INIT Init
NEXT Next
INVARIANTS WindowOK Allowed CleanOK OrderOK StdOK CodeOK
CHECK_DEADLOCK FALSE
