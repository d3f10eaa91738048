INIT Init
NEXT Next
CONSTANTS MaxId = 3 Silent = TRUE
INVARIANTS Exact
CHECK_DEADLOCK FALSE
