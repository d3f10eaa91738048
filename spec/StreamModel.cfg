INIT Init
NEXT Next
CONSTANTS MaxId = 6 Silent = FALSE
INVARIANTS Exact
CHECK_DEADLOCK FALSE
