CONSTANTS
  Key = {1, 2, 3}
  Value = {7, 8}
  MaxNode = 7
SPECIFICATION Spec
INVARIANT Sound
CHECK_DEADLOCK FALSE
