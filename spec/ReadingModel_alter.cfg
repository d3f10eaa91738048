CONSTANTS
  Engines = {"deduplicate"}
  MaxFiles = 2
  MaxRows = 1
  MaxAlters = 1
  PerFile = FALSE
SPECIFICATION Spec
INVARIANTS SkippingIsInvisible OneRowPerKey
CHECK_DEADLOCK FALSE
