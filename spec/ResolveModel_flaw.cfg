INIT Init
NEXT Next
CONSTANTS Threads = {1, 2} Calls = 2 Again = FALSE
CONSTANT Keys <- MCKeys
INVARIANTS Allowed Exclusive Live
CHECK_DEADLOCK FALSE
