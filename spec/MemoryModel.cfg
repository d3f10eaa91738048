INIT Init
NEXT Next
INVARIANT Correct
CONSTANTS Total = 12
 SegSizes = {1, 2, 3, 4, 6, 12}
CHECK_DEADLOCK FALSE
