INIT Init
NEXT Next
CONSTANTS Names = {"a", "b"} Depth = 2 MaxOps = 0 Exclusive = FALSE
INVARIANTS IsTree OneWinner
PROPERTIES Local
CHECK_DEADLOCK FALSE
