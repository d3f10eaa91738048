CONSTANTS
  Key = {1, 2, 3, 4}
  Value = {7, 8}
  MaxNode = 8
SPECIFICATION Spec
INVARIANT Sound
CHECK_DEADLOCK FALSE
