CONSTANTS Kind = "bi"
Style = "sk"
Prune = "none"
Win = 3
N = 2
T = 3
INIT Init
NEXT Next
VIEW View
INVARIANTS Sizes Latest Values GivenUp Errors OldErrors Voices Ages Spread Good Harder Few
CHECK_DEADLOCK FALSE
