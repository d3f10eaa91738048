INIT Init
NEXT Next
CONSTANT N = 6
INVARIANT Good
CHECK_DEADLOCK FALSE
