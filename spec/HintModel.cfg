INIT Init
NEXT Next
CONSTANTS MaxId = 6 Trusting = FALSE
INVARIANTS Newest
CHECK_DEADLOCK FALSE
