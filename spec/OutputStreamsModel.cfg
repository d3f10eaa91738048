INIT Init
NEXT Next
INVARIANT Refines
CONSTANTS SegSizes = {1, 2, 3, 4, 5, 8, 9}
 Widths = {0, 1, 2, 4, 8}
 MaxBytes = 15
CHECK_DEADLOCK FALSE
