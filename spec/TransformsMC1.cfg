CONSTANTS Kind = "std" How = "none" Size = 3 T = 5
INIT Init
NEXT Next
INVARIANTS WindowOK Allowed CleanOK OrderOK StdOK CodeOK
CHECK_DEADLOCK FALSE
