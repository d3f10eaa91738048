CONSTANTS
  Rows = 6
  Running = FALSE
SPECIFICATION Spec
INVARIANTS Exact
CHECK_DEADLOCK FALSE
