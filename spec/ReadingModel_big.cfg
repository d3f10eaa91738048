CONSTANTS
  Engines = {"deduplicate", "partial-update", "first-row"}
  MaxFiles = 2
  MaxRows = 2
  MaxAlters = 1
  PerFile = FALSE
SPECIFICATION Spec
INVARIANTS SkippingIsInvisible OneRowPerKey
CHECK_DEADLOCK FALSE
