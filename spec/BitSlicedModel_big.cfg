INIT Init
NEXT Next
CONSTANTS R = 3 V = 9
INVARIANT Exact
