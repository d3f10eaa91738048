INIT Init
NEXT Next
CONSTANT Max = 3 Guard = TRUE
CONSTANT Rules <- Good
CONSTANT Vals <- MCVals
CONSTANT Kinds <- MCKinds
INVARIANTS Same
CHECK_DEADLOCK FALSE
