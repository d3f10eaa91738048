CONSTANTS
  Rows = 4
  Running = TRUE
SPECIFICATION Spec
INVARIANTS Exact
CHECK_DEADLOCK FALSE
