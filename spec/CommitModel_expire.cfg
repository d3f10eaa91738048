INIT Init
NEXT Next
CONSTANTS Procs = {1, 2} NUnits = 2 MaxFaults = 0 MaxTries = 1 Expiring = TRUE Cleaning = FALSE Atomic = TRUE
INVARIANTS Consecutive Readable Once Told Lost Ordered Grows
PROPERTIES Immutable NewestIsNew
CHECK_DEADLOCK FALSE
