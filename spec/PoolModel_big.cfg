INIT Init
NEXT Next
INVARIANTS Usage Peak
CONSTANTS Threads = {1, 2, 3}
 Sizes = {1, 3}
 PerThread = 2
CHECK_DEADLOCK FALSE
