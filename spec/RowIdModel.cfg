INIT Init
NEXT Next
CONSTANTS Procs = {1, 2} NUnits = 2 Sticky = FALSE
INVARIANTS Unique GapFree
CHECK_DEADLOCK FALSE
