CONSTANTS
  MaxLen = 5
  MaxWeight = 3
  MaxTarget = 5
SPECIFICATION Spec
INVARIANTS Right Unique
CHECK_DEADLOCK FALSE
