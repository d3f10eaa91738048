INIT Init
NEXT Next
CONSTANTS MaxId = 9 Silent = FALSE
INVARIANTS Exact
CHECK_DEADLOCK FALSE
