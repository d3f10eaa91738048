INIT Init
NEXT Next
CONSTANTS Names = {"a", "b"} Depth = 2 MaxOps = 4 Exclusive = TRUE
INVARIANTS IsTree OneWinner
PROPERTIES Local
CHECK_DEADLOCK FALSE
