INIT Init
NEXT Next
CONSTANT Max = 3 Guard = FALSE
CONSTANT Rules <- Rods
CONSTANT Vals <- MCVals
CONSTANT Kinds <- MCKinds
INVARIANTS Same
CHECK_DEADLOCK FALSE
