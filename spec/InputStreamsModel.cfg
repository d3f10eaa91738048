INIT Init
NEXT Next
INVARIANTS TypeOK Position Delivered OnlyIfShort Total
CONSTANTS N = 9
 Cap = 3
 Sizes = {0, 1, 2, 3, 4, 5, 7, 10, 12}
CHECK_DEADLOCK FALSE
