CONSTANTS
  Engines = {"deduplicate"}
  MaxFiles = 2
  MaxRows = 2
  MaxAlters = 0
  PerFile = FALSE
SPECIFICATION Spec
INVARIANTS SkippingIsInvisible OneRowPerKey
CHECK_DEADLOCK FALSE
