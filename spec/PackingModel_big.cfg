CONSTANTS
  MaxLen = 6
  MaxWeight = 3
  MaxTarget = 7
SPECIFICATION Spec
INVARIANTS Right Unique
CHECK_DEADLOCK FALSE
