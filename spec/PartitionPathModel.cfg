CONSTANTS
  Byte = {97, 37, 47, 61, 50, 70, 0, 255}
  MaxText = 2
  MaxDepth = 1
SPECIFICATION Spec
INVARIANTS RoundTrip Hierarchy
CHECK_DEADLOCK FALSE
