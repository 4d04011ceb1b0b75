CONSTANTS N = 10 Gen = FALSE
INIT Init
NEXT Next
INVARIANTS OneRange
