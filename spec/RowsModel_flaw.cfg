CONSTANTS
  Fields = 2
  Size = 64
  Clear = FALSE
  Rich = FALSE
SPECIFICATION Spec
INVARIANTS OnlyTheRow ReadsBack
CHECK_DEADLOCK FALSE
