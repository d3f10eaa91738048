INIT Init
NEXT Next
CONSTANTS Procs = {1, 2} NUnits = 1 MaxFaults = 2 MaxTries = 2 Expiring = TRUE Cleaning = TRUE Atomic = TRUE
INVARIANTS Consecutive Readable Once Told Lost Ordered Grows
PROPERTIES Immutable NewestIsNew
CHECK_DEADLOCK FALSE
