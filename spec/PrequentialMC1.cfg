CONSTANT C <- Conf
INIT Init
NEXT Next
INVARIANTS TestThenTrain Complete WithinBudget NoDeadlock
