SPECIFICATION Spec
CONSTANTS Versions = {3,5,8,9,11}
 Ahead = FALSE
 Most = 1
INVARIANTS ArrivesAsSent CutIsNoticed
CHECK_DEADLOCK FALSE
