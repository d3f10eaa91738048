INIT Init
NEXT Next
CONSTANTS NFiles = 5 MaxCommits = 4
INVARIANTS Exact
CHECK_DEADLOCK FALSE
