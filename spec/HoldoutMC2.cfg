CONSTANT C <- Conf
INIT Init
NEXT Next
INVARIANTS Disjoint Complete NoDeadlock
