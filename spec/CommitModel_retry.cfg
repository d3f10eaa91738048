INIT Init
NEXT Next
CONSTANTS Procs = {1, 2} NUnits = 2 MaxFaults = 1 MaxTries = 1 Expiring = FALSE Cleaning = FALSE Atomic = TRUE
INVARIANTS Consecutive Readable Once Told Lost Ordered Grows
PROPERTIES Immutable NewestIsNew
CHECK_DEADLOCK FALSE
