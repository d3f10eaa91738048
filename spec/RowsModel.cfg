CONSTANTS
  Fields = 2
  Size = 64
  Clear = TRUE
  Rich = FALSE
SPECIFICATION Spec
INVARIANTS OnlyTheRow ReadsBack
CHECK_DEADLOCK FALSE
