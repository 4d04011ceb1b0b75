CONSTANTS N = 5 Gen = TRUE
INIT Init
NEXT Next
INVARIANTS OneRange Emit
