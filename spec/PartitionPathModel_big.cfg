CONSTANTS
  Byte = {97, 37, 47, 61, 50}
  MaxText = 2
  MaxDepth = 2
SPECIFICATION Spec
INVARIANTS RoundTrip Hierarchy
CHECK_DEADLOCK FALSE
