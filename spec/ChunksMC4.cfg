CONSTANTS Kind = "nse"
Style = "mf"
Prune = "age"
Win = 2
N = 2
T = 4
INIT Init
NEXT Next
VIEW View
INVARIANTS Sizes Latest Values GivenUp Errors OldErrors Voices Ages Spread Good Harder Few
CHECK_DEADLOCK FALSE
