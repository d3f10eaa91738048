INIT Init
NEXT Next
CONSTANTS NFiles = 6 MaxCommits = 5
INVARIANTS Exact
CHECK_DEADLOCK FALSE
