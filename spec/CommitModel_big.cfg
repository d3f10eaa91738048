INIT Init
NEXT Next
CONSTANTS Procs = {1, 2, 3} NUnits = 1 MaxFaults = 1 MaxTries = 2 Expiring = FALSE Cleaning = FALSE Atomic = TRUE
INVARIANTS Consecutive Readable Once Told Lost Ordered Grows
PROPERTIES Immutable NewestIsNew
CHECK_DEADLOCK FALSE
