CONSTANTS Kind = "lpp"
Style = "sk"
Prune = "none"
Win = 4
N = 2
T = 2
INIT Init
NEXT Next
VIEW View
INVARIANTS Sizes Latest Values GivenUp Errors OldErrors Voices Ages Spread Good Harder Few
CHECK_DEADLOCK FALSE
