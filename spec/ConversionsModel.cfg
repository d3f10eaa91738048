CONSTANTS
  FirstYear = 1
  LastYear = 410
  MaxValues = 4
SPECIFICATION Spec
INVARIANTS Calendar Bounds
PROPERTY Follows
CHECK_DEADLOCK FALSE
