INIT Init
NEXT Next
INVARIANTS Agree Once Greedy First
CHECK_DEADLOCK FALSE
