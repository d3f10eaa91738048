INIT Init
NEXT Next
CONSTANTS Procs = {1, 2} NUnits = 1 Sticky = TRUE
INVARIANTS Unique GapFree
CHECK_DEADLOCK FALSE
