INIT Init
NEXT Next
INVARIANTS Linear AtRest
CONSTANTS Kind = "metrics"
 Threads = {1, 2}
 PerThread = 2
 Menu <- MenuMap
 Obj0 <- NoMap
CHECK_DEADLOCK FALSE
