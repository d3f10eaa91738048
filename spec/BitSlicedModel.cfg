INIT Init
NEXT Next
CONSTANTS R = 3 V = 5
INVARIANT Exact
