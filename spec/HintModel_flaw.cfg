INIT Init
NEXT Next
CONSTANTS MaxId = 3 Trusting = TRUE
INVARIANTS Newest
CHECK_DEADLOCK FALSE
