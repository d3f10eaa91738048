INIT Init
NEXT Next
INVARIANTS Usage Peak
CONSTANTS Threads = {1, 2}
 Sizes = {1, 3}
 PerThread = 3
CHECK_DEADLOCK FALSE
