CONSTANTS N = 6 Gen = TRUE
INIT Init
NEXT Next
INVARIANTS OneRange Emit
