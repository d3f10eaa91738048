INIT Init
NEXT Next
CONSTANT N = 4
INVARIANT Aligned
