INIT Init
NEXT Next
CONSTANT N = 3
INVARIANT Sound
