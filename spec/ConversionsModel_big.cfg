CONSTANTS
  FirstYear = 1
  LastYear = 2410
  MaxValues = 6
SPECIFICATION Spec
INVARIANTS Calendar Bounds
PROPERTY Follows
CHECK_DEADLOCK FALSE
