CONSTANTS
  Engines = {"deduplicate"}
  MaxFiles = 2
  MaxRows = 2
  MaxAlters = 0
  PerFile = TRUE
SPECIFICATION Spec
INVARIANTS SkippingIsInvisible OneRowPerKey
CHECK_DEADLOCK FALSE
