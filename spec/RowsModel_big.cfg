CONSTANTS
  Fields = 2
  Size = 80
  Clear = TRUE
  Rich = TRUE
SPECIFICATION Spec
INVARIANTS OnlyTheRow ReadsBack
CHECK_DEADLOCK FALSE
