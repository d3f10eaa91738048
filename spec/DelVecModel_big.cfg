CONSTANTS
  Rows = 10
  Running = FALSE
SPECIFICATION Spec
INVARIANTS Exact
CHECK_DEADLOCK FALSE
