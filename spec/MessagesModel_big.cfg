SPECIFICATION Spec
CONSTANTS Versions = {3,4,5,6,7,8,9,10,11}
 Ahead = FALSE
 Most = 2
INVARIANTS ArrivesAsSent CutIsNoticed
CHECK_DEADLOCK FALSE
