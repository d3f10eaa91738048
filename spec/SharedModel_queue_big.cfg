INIT Init
NEXT Next
INVARIANTS Linear AtRest
CONSTANTS Kind = "queue"
 Threads = {1, 2, 3}
 PerThread = 2
 Menu <- MenuQueue
 Obj0 <- NoQueue
CHECK_DEADLOCK FALSE
